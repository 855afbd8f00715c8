"""Which harness binaries, in which build flavours, decide which property."""
V3 = "-C target-cpu=x86-64-v3 -C target-feature=+aes,+pclmulqdq"
V3CPU = ["avx2", "bmi2", "aes", "pclmulqdq"]

FLAVOURS = {
    # the configuration the repository's own tests use
    "v3": {"dir": "v3", "rustflags": V3, "features": ["rayon", "nightly_features"], "needs_cpu": V3CPU},
    # everything this CPU has (AVX-512, GFNI, VPCLMULQDQ where available)
    "native": {"dir": "native", "rustflags": "-C target-cpu=native", "features": ["rayon", "nightly_features"]},
    # portable code paths, no nightly features, no rayon
    "portable": {"dir": "portable", "rustflags": "", "features": []},
    # compiler sanitizers and the undefined-behaviour interpreter (C25)
    "asan": {"dir": "asan", "rustflags": "-C target-cpu=native -Zsanitizer=address -Zub-checks=yes",
             "features": ["rayon", "nightly_features"], "target": "x86_64-unknown-linux-gnu", "profile": "vpsan",
             "env": {"ASAN_OPTIONS": "detect_leaks=0:exitcode=99"}, "san_rc": 99},
    "tsan": {"dir": "tsan", "toolchain": "nightly", "cargo": ["-Zbuild-std"],
             "rustflags": "-C target-cpu=native -Zsanitizer=thread --cfg crossbeam_sanitize_thread",
             "features": ["rayon"], "target": "x86_64-unknown-linux-gnu", "profile": "vpsan",
             "env": {"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"}, "san_rc": 66},
    "miri": {"dir": "miri", "toolchain": "nightly", "miri": True, "features": [],
             "env": {"MIRIFLAGS": "-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-num-cpus=1 -Zmiri-ignore-leaks"}},
}

ALL3 = ["v3", "native", "portable"]
NOT_APPLICABLE = {}
MON = "runtime monitor: "
SAMPLED = "Holds on every execution observed; inputs are sampled (seeded), not enumerated. "


def runs(crate, bin, flavours, **kw):
    return [dict(crate=crate, bin=bin, flavour=f, **kw) for f in flavours]


def miri(crate, bin, shards, **kw):
    return [dict(crate=crate, bin=bin, flavour="miri", san_only=True, side_by_side=True, budget=200, kill_after=700,
                 timeout_is_error=True, env={"VMON_SHARD": f"{i}/{shards}"}, **kw) for i in range(shards)]


def san(flavour, crate, bins, scale, budget, **kw):
    return [dict(crate=crate, bin=b, flavour=flavour, san_only=True, budget=budget, kill_after=400,
                 timeout_is_error=True, env={"VMON_SCALE": str(scale)}, **kw) for b in bins]


CHECKS = {
    "C01": {"runs": runs("hf", "c01", ALL3, budget=12, tbudget=600),
            "technique": MON + "differential oracle (independent bit-level field arithmetic) on every scalar field operation, three instruction-set builds",
            "note": SAMPLED + "Exhaustive for all operand pairs up to 8 bits; patterned and random operands above. Trusts the reference arithmetic in vmon/src/gf.rs."},
    "C02": {"runs": runs("hf", "c02", ALL3, budget=20, tbudget=600),
            "technique": MON + "lane-by-lane differential oracle against scalar reference arithmetic for every packed type, three instruction-set builds",
            "note": SAMPLED + "All 130-odd packed types and every PackedField/packed-slice operation. AArch64 code is not executed here."},
    "C03": {"runs": runs("hf", "c03", ALL3, budget=20, tbudget=600),
            "technique": MON + "homomorphism/inverse/coordinate oracles on conversions, casts and linear maps, three instruction-set builds",
            "note": SAMPLED + "Every scalar conversion, all packed conversions and casts listed in the harness. AArch64 code is not executed here."},
    "C04": {"runs": runs("hf", "c04f", ALL3, budget=15, tbudget=600) + runs("hc", "c04", ALL3, budget=25, tbudget=600),
            "technique": MON + "round-trip oracle and hostile-bytes monitor (truncations, bit flips, forged lengths, random bytes, too-small buffers) on every serializable type, under a panic trap and an allocation limit",
            "note": SAMPLED + "Circuits and compositions are compared as functions. Packed AES/POLYVAL types are documented as not serializable. References between ids inside a decoded constraint system are not validated by its decoder and are outside the property; the derive macro does not support const generics."},
    "C05": {"runs": runs("hm", "c05", ALL3, budget=20, tbudget=600),
            "technique": MON + "differential oracle (defining hypercube sum) on multilinear evaluation, folds, tensors, three instruction-set builds",
            "note": SAMPLED + "Polynomials of up to about 10 variables. Trusts the scalar arithmetic checked by C01."},
    "C06": {"runs": runs("hm", "c06", ALL3, budget=20, tbudget=600),
            "technique": MON + "differential oracle (monomial-form polynomials, spans, schoolbook linear algebra) on interpolation, subspaces and matrices",
            "note": SAMPLED + "Domains of up to 18 points, subspaces of every dimension, matrices up to about 10x10."},
    "C07": {"runs": runs("hm", "c07", ALL3, budget=20, tbudget=600),
            "technique": MON + "differential oracle (direct expression interpreter and sparse polynomial normal form) on generated expressions and circuits",
            "note": SAMPLED + "Random expression DAGs with sharing, constants and powers including 0 and large ones."},
    "C08": {"runs": runs("hm", "c08", ALL3, budget=20, tbudget=600),
            "technique": MON + "differential oracle (direct evaluation in the novel polynomial basis) on transforms, twiddles and code folding",
            "note": SAMPLED + "Transforms of up to about 2^11 points, all interleaving/skip/coset/batch shapes, all twiddle strategies, 1-8 threads."},
    "C09": {"runs": runs("hm", "c09", ALL3, budget=20, tbudget=600),
            "technique": MON + "differential oracle (independent Groestl, SHA-256 and Vision reference implementations) on every hasher entry point",
            "note": SAMPLED + "Messages of up to about 2 kB with every chunking pattern; the Vision constants are derived by the reference, not copied from the library's tables, except those listed in vision_consts.rs."},
    "C10": {"runs": runs("hc", "c10", ALL3, budget=20, tbudget=600),
            "technique": MON + "reference Merkle tree oracle and tampering monitor (value, position, sibling, layer, root) over committed vectors",
            "note": SAMPLED + "Trees of up to 2^8 leaves with Groestl, SHA-256 and Vision; binding is checked by single alterations, not cryptanalysis."},
    "C11": {"runs": runs("hc", "c11", ALL3, budget=20, tbudget=600),
            "technique": MON + "trace checker over generated transcript histories (replay agreement, altered/dropped/inserted/reordered values, tape boundaries)",
            "note": SAMPLED + "Histories of up to 15 operations; collision-freeness is observed over thousands of short histories, not proved."},
    "C12": {"runs": runs("hc", "c12", ALL3, budget=60, tbudget=900),
            "technique": MON + "reduction monitor: honest, false-claim and altered-message runs of the real prover and verifier under fixed public coins, judged by direct multilinear evaluation",
            "note": SAMPLED + "Up to 14 variables, batches of up to 3 claims, degrees up to 4. Soundness is observed against altered and consistently-wrong provers, not all provers."},
    "C13": {"runs": runs("hc", "c13", ALL3, budget=60, tbudget=900),
            "technique": MON + "reduction monitor on grand products and exponentiation: values against plain products and powers, honest, false-claim and altered-message runs",
            "note": SAMPLED + "Products of up to 2^11 values, exponents of up to 128 bits, batches of up to 5."},
    "C14": {"runs": runs("hc", "c14", ALL3, budget=20, tbudget=600),
            "technique": MON + "oracle-graph monitor: generated compositions of derived and transparent columns, reduced by the real evalcheck prover and verifier (honest, false-claim and altered-message runs), judged by tables computed from the definitions",
            "note": SAMPLED + "Graphs of up to about 10 oracles over columns of up to about 8 variables, six packings; soundness is observed against altered and consistently-wrong provers, not all provers."},
    "C15": {"runs": runs("hc", "c15", ALL3, budget=40, tbudget=900),
            "technique": MON + "reference oracle (codes evaluated in the novel basis, folds and ring-switched claims from the definitions) and reduction monitor on commitments, FRI folds and evaluation proofs: honest, false-claim and altered-message runs",
            "note": SAMPLED + "Batches of a few committed and transparent multilinears of up to about 2^12 elements on the reference and packed compute layers; soundness is observed against altered proofs and wrong claims, not all provers."},
    "C16": {"runs": runs("hc", "c16", ALL3, budget=40, tbudget=900),
            "technique": MON + "parameter oracle (exact rational soundness bound, arity and layout arithmetic) and whole-proof event trace: queries drawn, layers opened and bytes read are compared with the parameters",
            "note": SAMPLED + "Security levels 1 to 2^40, rates 2^0 to 2^-8, all fold-arity shapes for codes of up to 2^16; the soundness formula itself is taken from the documentation."},
    "C17": {"runs": runs("hc", "c17", ALL3, budget=30, tbudget=900),
            "technique": MON + "completeness monitor: generated satisfiable constraint systems (checked by an independent row-level model) filled, proved and verified end to end",
            "note": SAMPLED + "Up to 3 generated tables of up to 2^8 rows, all column kinds, three packing widths, security 20 to 100. Systems must commit more than one field element and at least one packed word (explicit limits of the FRI prover), and every constraint mentions a column."},
    "C18": {"runs": runs("hc", "c18", ALL3, budget=20, tbudget=600),
            "technique": MON + "soundness monitor: false witnesses, boundaries, powers, weakened provers and altered proofs, judged false by an independent row-level model, must be rejected by the real verifier",
            "note": SAMPLED + "Soundness is observed against these deviating provers and alterations, not all provers. A statement with nothing to prove (no constraint, flush or exponentiation) is outside the property."},
    "C19": {"runs": runs("hc", "c19", ALL3, budget=25, tbudget=600),
            "technique": MON + "hostile-input monitor: mutated, spliced, truncated and random proof bytes under a panic trap, an allocation limit and a time limit",
            "note": SAMPLED + "Mutations are structure-aware (sizes, indices, counts, scalars) and under a challenger with fixed coins reach behind every check. Memory and time limits are generous multiples of honest verification."},
    "C20": {"runs": runs("hc", "c20", ALL3, budget=20, tbudget=600),
            "technique": MON + "differential oracle: validate_witness verdicts against an independent row-level model on satisfying, corrupted and rebalanced witnesses",
            "note": SAMPLED + "Exponentiation results are left to the prover by validation and are not judged here."},
    "C21": {"runs": runs("hm", "c21", ALL3, budget=30, tbudget=600),
            "technique": MON + "differential oracle on every compute-layer operation with the whole surrounding buffers compared (guard regions), allocator and memory-view history checkers, concurrent allocation monitor",
            "note": SAMPLED + "Reference layer and the packed layer with eight packed types (including byte-sliced memory), slices below, at and above the packed width, 1 to 9 threads. Pairwise products exist on the reference layer only."},
    "C22": {"runs": runs("hc", "c22", ("native",), budget=120, tbudget=900) + runs("hc", "c22", ("portable",), thorough_only=True, tbudget=900),
            "technique": MON + "differential oracle (independent arithmetic and hash references) on gadget outputs, an independent cell-by-cell constraint evaluator, and an adversarial search for other satisfying assignments of the recorded witness",
            "note": SAMPLED + "The search for forged assignments is local (disturb, propagate, repair; transplanted rows): it finds missing or too weak constraints, it does not prove uniqueness. Lookup channels are judged by membership for gadgets alone and end to end with the real tables."},
    "C23": {"runs": runs("hc", "c23", ALL3, budget=20, tbudget=600),
            "technique": MON + "differential oracle: witness contents and compiled statements of generated tables against a row-level model, over fill orders, segment sizes and threads; refused-misuse monitor",
            "note": SAMPLED + "Generated tables of up to about 2^6 rows with every column kind of the builder."},
    "C25": {"runs": miri("hf", "c25f", 4) + miri("hm", "c25m", 8) + miri("hc", "c25c", 4)
            + san("asan", "hf", ["c25f"], 5, 6, tbudget=300) + san("asan", "hf", ["c02", "c03"], 0.2, 6, tbudget=300)
            + san("asan", "hm", ["c25m"], 2, 8, tbudget=300) + san("asan", "hm", ["c05", "c08", "c09", "c21"], 0.1, 6, tbudget=300)
            + san("asan", "hc", ["c25c"], 1, 8, tbudget=300) + san("asan", "hc", ["c10", "c17"], 0.1, 8, tbudget=300)
            + san("tsan", "hm", ["c08", "c21"], 0.03, 12, tbudget=300)
            + san("tsan", "hc", ["c25c"], 0.3, 8, tbudget=300)
            + san("asan", "hf", ["c01", "c04f", "c26"], 0.3, 10, tbudget=200, thorough_only=True)
            + san("asan", "hm", ["c06", "c07"], 0.3, 10, tbudget=200, thorough_only=True)
            + san("asan", "hc", ["c04", "c11", "c12", "c13", "c14", "c15", "c16", "c18", "c19", "c20", "c22", "c23"], 0.1, 10,
                  tbudget=150, thorough_only=True)
            + san("tsan", "hm", ["c25m"], 0.2, 10, tbudget=200, thorough_only=True)
            + san("tsan", "hc", ["c12", "c13", "c14", "c23"], 0.05, 10, tbudget=200, thorough_only=True),
            "technique": "Miri (undefined-behaviour interpreter, tree borrows), AddressSanitizer with library precondition checks, ThreadSanitizer: dedicated workloads with well-formed and hostile shapes over every module that uses unsafe code, and the other properties' workloads",
            "note": "No report on any execution observed. Miri interprets the portable code paths (no SIMD intrinsics, serial stand-in for rayon) on small sizes; AddressSanitizer runs the SIMD paths with rayon, ThreadSanitizer the parallel ones. Leaks are not judged."},
    "C26": {"runs": runs("hf", "c26", ALL3, budget=20, tbudget=600),
            "technique": MON + "operation histories on the containers against simple models, and one generated adaptor-and-consumer chain oracle judging both the real parallel library and the serial stand-in",
            "note": SAMPLED + "Operations whose result rayon leaves to the schedule (take_any, find_any, while_some after a None, ...) are judged by their contract, not compared. Positions beyond a row's columns in Array2D indexing are outside the property."},
}
