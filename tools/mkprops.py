import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Scalar binary-field arithmetic is the arithmetic of the documented fields",
"Every scalar operation of the canonical tower, the AES tower and the POLYVAL field (add, multiply, square, invert, powers, multiplication by the tower generator, by a subfield element or by a basis element, and basis composition and decomposition) returns exactly the element that the field's definition prescribes. The inverse of zero is zero, and every field's advertised multiplicative generator has full order.",
["inputs","configurations"],"for all operands of every field of every tower, with the portable as well as the instruction-set specific code",
"The tests sample random operands, compare implementations with each other, and only compile one instruction set; a wrong table entry or a slip that needs a particular operand pattern survives.",
["crates/field/src/binary_field.rs","crates/field/src/binary_field_arithmetic.rs","crates/field/src/aes_field.rs","crates/field/src/polyval.rs","crates/field/src/arch"],
[("tower arithmetic","crates/field/src/binary_field_arithmetic.rs"),("lookup tables for 8-bit arithmetic","crates/field/src/arch/portable/pairwise_table_arithmetic.rs"),("Montgomery POLYVAL multiply","crates/field/src/arch/portable/packed_polyval_128.rs")],["result of each public operator"])

p("C02","Packed field operations act lane by lane like the scalar field",
"Every arithmetic, broadcast, get/set, iteration, interleave, unzip, spread and transpose operation on a packed field element or packed slice (all widths, scaled and byte-sliced layouts) gives exactly the lanes obtained by applying the scalar operation or the documented permutation to the lanes. This holds identically for every instruction-set build of the library.",
["inputs","configurations"],"for all lane contents, block sizes, indices and packed types, in the portable, AVX2 and AVX-512/GFNI builds",
"The tests run in a single instruction-set build, so the portable and the AVX-512/GFNI code is never executed, and permutations are tried on a few constants only.",
["crates/field/src/packed.rs","crates/field/src/packed_extension.rs","crates/field/src/packed_extension_ops.rs","crates/field/src/transpose.rs","crates/field/src/util.rs","crates/field/src/arch","crates/field/src/underlier"],
[("packed primitive types","crates/field/src/arch/portable/packed.rs"),("x86 underliers","crates/field/src/arch/x86_64"),("byte-sliced types","crates/field/src/arch/portable/byte_sliced"),("packed slice helpers","crates/field/src/packed.rs")],["lanes of every result"])

p("C03","Field isomorphisms, embeddings, casts and linear maps preserve meaning",
"Converting elements between the canonical tower, the AES tower and the POLYVAL field is a field isomorphism whose two directions are mutually inverse, for scalars and for packed elements. Subfield embedding is a ring homomorphism that is inverted exactly on the subfield and refused elsewhere, reinterpreting a packed extension-field value as packed subfield values exposes exactly its coordinates, and a linear transformation built from basis images maps every input to the corresponding combination of those images.",
["inputs","configurations"],"for all field elements and packed values, all pairs of related fields, and all linear transformations",
"Tests sample a few random elements of some pairs in one instruction-set build.",
["crates/field/src/aes_field.rs","crates/field/src/polyval.rs","crates/field/src/linear_transformation.rs","crates/field/src/packed_extension.rs","crates/field/src/extension.rs","crates/field/src/tower.rs"],
[("isomorphism bases","crates/field/src/aes_field.rs, crates/field/src/polyval.rs"),("packed transformations","crates/field/src/linear_transformation.rs"),("packed casts","crates/field/src/packed_extension.rs")],["converted values"])

p("C04","Serialization round-trips and decoding of arbitrary bytes fails cleanly",
"Every value of a serializable type (integers, containers, field elements of every tower, constraint systems, boundary values) written in either serialization mode is read back equal and consumes exactly the bytes written, and canonical-mode bytes do not depend on which tower representation the element is held in. Decoding arbitrary or truncated bytes returns either a valid value or an error: it never panics, never reads past the buffer, and writing to a buffer that is too small is reported as an error.",
["inputs","fault_sequences"],"for all values, both modes, all truncation points and all byte strings",
"Tests round-trip a handful of values and never feed truncated or arbitrary bytes.",
["crates/utils/src/serialization.rs","crates/field/src/binary_field.rs","crates/field/src/aes_field.rs","crates/field/src/polyval.rs","crates/field/src/underlier/small_uint.rs","crates/macros/src/deserialize_bytes.rs","crates/core/src/constraint_system/mod.rs","crates/hash/src/serialization.rs"],
[("SerializeBytes/DeserializeBytes impls","crates/utils/src/serialization.rs"),("derive macros","crates/macros/src/deserialize_bytes.rs")],["decoded value, remaining buffer, error"])

p("C05","Multilinear polynomial operations equal the mathematical definition",
"Evaluating, partially evaluating (on low, high or middle variables), folding, zero-padding and slicing a multilinear polynomial given by its hypercube values gives exactly the values obtained from the defining sum over the hypercube with the equality polynomial, in every packing and for every subfield of the evaluation field. The expanded equality-indicator tensor and piecewise multilinear evaluation agree with the same definition.",
["inputs","configurations"],"for all numbers of variables (including fewer values than one packed element holds), points, subfields, packings and split positions",
"Tests use a few sizes and packings, so the special-cased paths (1-bit lookup folds, sub-packed-width sizes, unaligned tails) are sampled thinly.",
["crates/math/src/fold.rs","crates/math/src/multilinear_extension.rs","crates/math/src/multilinear_query.rs","crates/math/src/mle_adapters.rs","crates/math/src/tensor_prod_eq_ind.rs","crates/math/src/piecewise_multilinear.rs"],
[("fold kernels","crates/math/src/fold.rs"),("tensor expansion","crates/math/src/tensor_prod_eq_ind.rs"),("adapters","crates/math/src/mle_adapters.rs")],["returned evaluations"])

p("C06","Univariate interpolation, subspaces and linear algebra are exact",
"Interpolation and extrapolation over an evaluation domain (with or without the point at infinity) reproduce exactly the unique low-degree polynomial through the given values, and Lagrange evaluation, line extrapolation and Horner evaluation agree with it. Enumerating a binary subspace yields every element of the span exactly once in index order, and matrix product and inversion are exact, with a singular matrix or repeated domain point reported as an error.",
["inputs"],"for all domain sizes and points, all values, all subspace dimensions and indices, all matrices",
"Tests use a few random domains and sizes.",
["crates/math/src/univariate.rs","crates/math/src/binary_subspace.rs","crates/math/src/matrix.rs"],
[("barycentric extrapolation","crates/math/src/univariate.rs"),("Gaussian elimination","crates/math/src/matrix.rs"),("subspace enumeration","crates/math/src/binary_subspace.rs")],["returned values and errors"])

p("C07","Arithmetic expressions keep their value under every transformation",
"An arithmetic expression evaluates to the same field element whether it is evaluated directly, after conversion to a circuit, optimisation, constant folding, variable remapping or substitution, field conversion or serialization, or by a compiled batch evaluator over packed rows. Its reported degree bounds the degree of the polynomial it denotes, and its leading term (the homogeneous part of that degree), linear normal form, constantness and variable usage are those of that polynomial.",
["inputs","programs"],"for all expression trees (shared subterms, constants, high powers), all assignments and all batch sizes",
"Tests check a few hand-written expressions; optimisation passes interact in ways that only larger or unusual expressions expose.",
["crates/math/src/arith_expr.rs","crates/fast_compute/src/arith_circuit.rs","crates/core/src/polynomial/arith_circuit.rs"],
[("circuit optimiser","crates/math/src/arith_expr.rs"),("batch circuit evaluators","crates/core/src/polynomial/arith_circuit.rs, crates/fast_compute/src/arith_circuit.rs")],["evaluation results, reported structure"])

p("C08","Additive NTT is exact evaluation and its inverse is exact interpolation",
"The forward transform of coefficients in the novel polynomial basis equals evaluation of that polynomial at every point of the requested coset, for every batch shape, skipped-round setting, packing, domain field, twiddle strategy and thread count, and the inverse transform undoes it exactly. Interpolation on domains of size odd-factor times a power of two and the low-level codeword folding used by FRI agree with the same polynomial definition, and invalid shapes are reported as errors.",
["inputs","configurations","schedules"],"for all data, shapes, cosets, packings, thread counts and transform implementations",
"Tests cover some shapes on small domains and mostly compare implementations with each other.",
["crates/ntt/src/single_threaded.rs","crates/ntt/src/multithreaded.rs","crates/ntt/src/twiddle.rs","crates/ntt/src/odd_interpolate.rs","crates/ntt/src/fri.rs","crates/ntt/src/dynamic_dispatch.rs"],
[("butterflies","crates/ntt/src/single_threaded.rs"),("subspace evaluations","crates/ntt/src/twiddle.rs"),("parallel splitting","crates/ntt/src/multithreaded.rs")],["transformed data"])

p("C09","Hash functions compute their specification for every input and chunking",
"Grøstl-256, Vision-Mark-32 and the SHA-256 and Grøstl compression functions return the digest their specification prescribes for every message, independent of how the message is split across updates, of hasher reuse after reset, and of whether it is computed alone, in a multi-lane batch or by the parallel hasher. Hashing a serialized sequence of field elements equals hashing its serialized bytes.",
["inputs","configurations","schedules"],"for all message lengths and contents, chunkings, lane counts, instruction-set builds and thread counts",
"Tests fix a few vectors and lengths and one instruction-set build; lane cross-talk or buffer-boundary slips need particular lengths.",
["crates/hash/src/groestl","crates/hash/src/vision","crates/hash/src/sha2.rs","crates/hash/src/multi_digest.rs","crates/hash/src/serialization.rs"],
[("Grøstl rounds","crates/hash/src/groestl/arch"),("Vision permutation","crates/hash/src/vision/permutation.rs"),("multi-digest and parallel digest","crates/hash/src/multi_digest.rs")],["digests"])

p("C10","Merkle commitments open honestly and bind every committed value",
"For every committed vector (any power-of-two size, batch size and commitment layer) each leaf opening and layer opening produced by the prover is accepted by the verifier against the published root. An opening is rejected whenever the claimed value, its position, any sibling digest, the layer or the root differs from what was committed, and the root does not depend on the number of threads.",
["inputs","fault_sequences","schedules"],"for all vectors, shapes, indices, layer depths and all alterations of value, index or proof bytes",
"Tests open a few trees honestly; rejection is checked for almost no alteration.",
["crates/core/src/merkle_tree"],
[("tree construction","crates/core/src/merkle_tree/binary_merkle_tree.rs"),("opening verification","crates/core/src/merkle_tree/scheme.rs")],["accept/reject of the verifier"])

p("C11","Fiat-Shamir transcript: both sides agree and every message is bound",
"Prover and verifier that perform the same sequence of transcript operations derive identical challenges, and every value written is read back equal. Changing, inserting, dropping or reordering any observed or committed value changes all later challenges except with negligible probability, decommitment data does not influence challenges, and reading past the end or leaving bytes unread is reported as an error.",
["inputs","histories","fault_sequences"],"for all interleavings of observe, message, decommitment, sampling and grinding operations, all data sizes and all alterations",
"Tests run a few fixed transcripts; binding is a statement over all histories and alterations.",
["crates/core/src/transcript/mod.rs","crates/core/src/fiat_shamir"],
[("hasher challenger duplex","crates/core/src/fiat_shamir/hasher_challenger.rs"),("transcript readers/writers","crates/core/src/transcript/mod.rs")],["challenges and read values"])

p("C12","Sumcheck-family protocols are complete and reduce false claims to false claims",
"For every batch of true sumcheck, zerocheck or equality-indicator claims (mixed sizes, degrees, evaluation orders and univariate-skip depths), the prover's proof is accepted and the reduced claims are the true evaluations of the multilinears at the output point. If an input claim is false or any proof message is altered, the verifier rejects or outputs at least one evaluation claim that is false.",
["inputs","fault_sequences","configurations"],"for all multilinears, compositions, batch shapes, evaluation orders and prover deviations",
"Tests run honest provers on a few compositions and almost no dishonest prover.",
["crates/core/src/protocols/sumcheck"],
[("batch verification","crates/core/src/protocols/sumcheck/verify_sumcheck.rs"),("zerocheck with univariate skip","crates/core/src/protocols/sumcheck/verify_zerocheck.rs"),("round provers","crates/core/src/protocols/sumcheck/prove")],["verifier decision and output claims"])

p("C13","Grand-product and exponentiation GKR protocols are complete and sound",
"For every batch of multilinears, the grand-product protocol accepts the true products and its reduced claims are true evaluations; for every batch of static- or dynamic-base exponentiations the same holds for the true powers. A false product or power, or any altered proof message, is rejected or yields a false reduced claim.",
["inputs","fault_sequences","configurations"],"for all layer contents (including zeros), batch shapes, exponent widths, bases and prover deviations",
"Tests run honest provers on a few random batches.",
["crates/core/src/protocols/gkr_gpa","crates/core/src/protocols/gkr_exp"],
[("grand product layers","crates/core/src/protocols/gkr_gpa/verify.rs"),("exponentiation layers","crates/core/src/protocols/gkr_exp/batch_verify.rs")],["verifier decision and output claims"])

p("C14","Virtual and transparent oracles mean what they define, down to committed columns",
"Every derived column (shifted, packed, projected, zero-padded, repeated, linear or arithmetic combination) and every transparent polynomial evaluates, at every point, to the multilinear extension of the values its definition gives on the hypercube. Reducing any true evaluation claim on any composition of such columns to claims on committed columns succeeds with true claims, while a false claim or altered reduction proof is rejected or yields a false committed claim. Invalid definitions (sizes, indices or counts that do not fit) are refused with an error.",
["inputs","programs","fault_sequences"],"for all oracle graphs, parameters, points and prover deviations",
"Tests evaluate a few oracles with fixed parameters; reductions of nested oracles and dishonest reductions are barely exercised.",
["crates/core/src/oracle","crates/core/src/transparent","crates/core/src/protocols/evalcheck","crates/core/src/protocols/greedy_evalcheck","crates/core/src/polynomial"],
[("evalcheck reduction","crates/core/src/protocols/evalcheck"),("transparent evaluation","crates/core/src/transparent")],["evaluations, verifier decision and output claims"])

p("C15","Polynomial commitment opens true evaluations and refuses false ones",
"Committing any batch of small-field columns and proving any set of evaluation claims through ring-switching, the batched interactive opening and FRI is accepted when all claims are true, for every code rate, folding arity schedule and number of columns. It is rejected when any claim is false, any committed codeword or proof element is altered, or a different commitment is used; Reed-Solomon encoding is the systematic evaluation the folding verifier assumes.",
["inputs","fault_sequences","configurations"],"for all column sizes and fields, claim sets, FRI parameters and alterations",
"Tests run the honest path for a few shapes; rejection is checked for almost nothing.",
["crates/core/src/piop","crates/core/src/ring_switch","crates/core/src/protocols/fri","crates/core/src/reed_solomon"],
[("ring switching","crates/core/src/ring_switch"),("FRI folding and queries","crates/core/src/protocols/fri"),("PIOP batching","crates/core/src/piop")],["verifier decision"])

p("C16","Protocol parameters always reach the requested security level",
"For every requested security level, code rate and column layout, the chosen number of FRI queries is at least what the documented soundness bound requires and the folding schedule covers every committed variable exactly once, or parameter selection reports an error. Prover and verifier derive the same parameters from the same statement.",
["configurations","inputs"],"for all security levels, rates, arities and committed layouts",
"Tests check one or two parameter sets.",
["crates/core/src/protocols/fri/common.rs","crates/core/src/piop/verify.rs","crates/core/src/piop/commit.rs"],
[("query count","crates/core/src/protocols/fri/common.rs"),("parameter selection","crates/core/src/piop/verify.rs")],["chosen parameters"])

p("C17","Every satisfied constraint system yields a proof the verifier accepts",
"For every constraint system and witness that satisfies it (any mix of column kinds, flushes with selectors and multiplicities, exponentiations, table sizes including zero and non-powers of two, any number of threads and supported field backend), proving succeeds and verification accepts that proof for the same statement and boundaries. (Statements in the documented domain: every constraint mentions a column, more than one field element and at least one packed word of data is committed, and at least 20 bits of security are requested.)",
["inputs","programs","configurations","schedules"],"for all satisfiable systems, witnesses, table sizes, security parameters and thread counts",
"The suite only validates witnesses; end-to-end proving is switched off in its test helper and sampled by a few examples.",
["crates/core/src/constraint_system/prove.rs","crates/core/src/constraint_system/verify.rs","crates/m3/src/builder"],
[("proof pipeline","crates/core/src/constraint_system/prove.rs"),("verification pipeline","crates/core/src/constraint_system/verify.rs")],["result of prove and verify"])

p("C18","The verifier rejects every false statement and every altered proof",
"For every statement with at least one constraint, flush or exponentiation, a proof is rejected when the committed witness violates any constraint, leaves any channel unbalanced (including channels that only boundary values touch), or misstates any exponentiation result; when the boundaries, constraint system or security parameters differ from those it was made for; and when any byte of it is changed, removed or appended.",
["inputs","programs","fault_sequences"],"for all systems, false witnesses, boundary or statement changes and proof alterations",
"The suite contains almost no dishonest prover and no systematic proof alteration.",
["crates/core/src/constraint_system/verify.rs","crates/core/src/constraint_system/channel.rs","crates/core/src/constraint_system/exp.rs"],
[("channel balance","crates/core/src/constraint_system/channel.rs"),("constraint and exponent reduction","crates/core/src/constraint_system/verify.rs")],["result of verify"])

p("C19","Verification of hostile proof bytes always ends with an answer, never a panic",
"Given any byte string as the proof, verification of any well-formed constraint system returns an error or success: it does not panic, overflow, abort, or use memory or time out of proportion to the statement and proof size.",
["inputs","fault_sequences"],"for all proof byte strings, in particular mutated honest proofs with hostile sizes, indices and counts",
"No test feeds malformed proofs.",
["crates/core/src/constraint_system/verify.rs","crates/core/src/transcript/mod.rs","crates/core/src/protocols"],
[("length and index checks while reading","crates/core/src/protocols/evalcheck/verify.rs, crates/core/src/constraint_system/verify.rs")],["return value, panics, memory"])

p("C20","Witness validation agrees exactly with the constraint system's meaning",
"Validating a witness succeeds exactly when every constraint holds on every row, every derived and transparent column carries the values it is defined to carry, every non-zero column has no zero, and every channel's pushes and pulls (with selectors, multiplicities and boundaries) balance.",
["inputs","programs"],"for all constraint systems, witnesses and single-cell corruptions of witnesses",
"Tests validate a few honest witnesses; the check's own blind spots are never probed.",
["crates/core/src/constraint_system/validate.rs","crates/core/src/constraint_system/channel.rs","crates/m3/src/builder/test_utils.rs"],
[("row-wise validation","crates/core/src/constraint_system/validate.rs")],["Ok/Err of validation"])

p("C21","Compute layers and backends all compute the same documented operation",
"Every compute-layer operation (inner product, tensor expansion, folds, FRI fold, line extrapolation, composite evaluation, product reduction, kernel map and accumulate, copies, fills) on every layer and every slice shape returns exactly what its definition prescribes and touches only its output. Slicing, splitting and bump allocation hand out disjoint regions that together cover the buffer and report exhaustion or bad sizes as errors.",
["inputs","configurations","schedules"],"for all operand contents, sizes (below, at and above packed width), tower levels and layers",
"Tests run each operation on one or two sizes.",
["crates/compute/src","crates/fast_compute/src/layer.rs","crates/fast_compute/src/memory.rs","crates/hal/src"],
[("reference CPU layer","crates/compute/src/cpu/layer.rs"),("packed fast layer","crates/fast_compute/src/layer.rs"),("allocators and memory views","crates/compute/src/alloc.rs, crates/fast_compute/src/memory.rs")],["output buffers"])

p("C22","M3 gadgets compute their function and their constraints pin it down",
"For every input, each gadget (adders, subtractors, multipliers, dividers, barrel shifter, lookups, SHA-256, Keccak, Grøstl and Merkle-path gadgets) fills columns whose outputs equal the documented function of its inputs and satisfy all its constraints. Changing any output cell away from the right value violates at least one constraint or channel.",
["inputs","fault_sequences"],"for all operand values including carries, borrows, overflow, zero divisors and boundary shift amounts, and all output corruptions",
"Tests run random honest inputs; they never show that a wrong output is refused.",
["crates/m3/src/gadgets"],
[("gadget constraints and fillers","crates/m3/src/gadgets")],["filled columns; validation verdict"])

p("C23","M3 table builder: what is declared and filled is what is proved",
"Columns, packings, shifts, projections, constants, flushes and constraints declared on a table become exactly the corresponding statement over the filled rows; filling a table gives the same witness sequentially, segment by segment or in parallel; and rows beyond the declared size neither affect validity nor channel balance. A fill whose row count or column shape does not fit is reported as an error.",
["inputs","programs","schedules"],"for all tables, row counts (including zero and non-powers of two), column kinds and segmentations",
"Tests build a few tables of fixed size.",
["crates/m3/src/builder"],
[("compilation to constraint system","crates/m3/src/builder/constraint_system.rs"),("witness segments","crates/m3/src/builder/witness.rs"),("structured and indexed columns","crates/m3/src/builder/structured.rs")],["compiled statement, witness contents, validation verdict"])

p("C24","Results do not depend on threads, packing or instruction set",
"For the same statement and witness, commitments, proofs, digests, transforms and witness contents are bit-for-bit identical for every number of threads, with parallelism compiled out, and for every instruction-set build; and a proof made in one configuration verifies in every other.",
["schedules","configurations"],"for all thread counts, schedules and build configurations",
"The suite runs one configuration and never compares outputs across configurations.",
["crates/maybe_rayon/src","crates/core/src/constraint_system/prove.rs","crates/field/src/arch","crates/utils/src/rayon.rs"],
[("serial stand-in for parallel iterators","crates/maybe_rayon/src"),("parallel loops","crates/core/src, crates/math/src, crates/hash/src")],["proof bytes and digests per configuration"])

p("C25","Safe API use is free of undefined behaviour and data races",
"No call of the library's safe public API, on any input and under any thread schedule, performs an out-of-bounds or misaligned access, reads uninitialised or freed memory, creates aliasing mutable references or invalid values, or races on shared data.",
["inputs","schedules"],"for all safe calls, sizes and schedules",
"Ordinary tests run without sanitizers, so such faults usually pass silently.",
["crates/field/src","crates/utils/src","crates/math/src","crates/hash/src","crates/fast_compute/src","crates/ntt/src","crates/m3/src/builder/witness.rs"],
[("unsafe blocks with local invariants","crates/field/src/packed.rs, crates/utils/src/strided_array.rs, crates/utils/src/mem.rs, crates/fast_compute/src/memory.rs")],["sanitizer and interpreter reports"])

p("C26","Utility containers and the serial parallel-iterator stand-in keep contracts",
"The shared utilities (two-dimensional and strided arrays, sparse index, sequences and subranges, sorting and unsorting, connected components, checked logarithms) behave like their simple reference models for every sequence of operations. With parallelism compiled out, every parallel-iterator adaptor yields the same results as the real parallel library.",
["inputs","histories","configurations"],"for all operation sequences, sizes and adaptor chains",
"Tests try a few fixed examples, and never compare the serial stand-in with the real library.",
["crates/utils/src","crates/maybe_rayon/src"],
[("utility containers","crates/utils/src"),("serial iterator wrappers","crates/maybe_rayon/src/iter")],["returned values"])
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))
