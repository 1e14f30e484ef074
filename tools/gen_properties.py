#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the long texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

prop("C01", "Every element is destroyed exactly once, wherever caller code panics",
 "Whatever history of container operations a caller runs (construction, mapping, zipping, folding, scanning, transposing, converting, iterating, cloning, arithmetic, matrix products), and at whatever point inside one of them the caller's own code (closure, source iterator, element operator, clone, default, zero/one or destructor) panics, every element handed in or produced is dropped exactly once. No element is read before it is initialised or after it is dropped, none is leaked, and the caller's panic reaches the caller unchanged. Containers that were only borrowed by the interrupted operation stay fully valid.",
 ["crash_points", "histories", "fault_sequences"],
 "all element types with destructors, all dimensions (0 included), all histories of public container operations, and every call the library makes into caller code as the crash point",
 "The unit tests use Copy numbers almost everywhere, never panic inside a callback and observe drops only for two fault-free conversions; the property quantifies over every crash point inside every operation.",
 ["src/vector/base/init.rs", "src/vector/base/iter.rs", "src/matrix/base/init.rs", "src/matrix/base/iter.rs", "src/matrix/base/convert.rs", "src/matrix/transpose.rs", "src/matrix/square.rs", "src/vector/ops/base.rs", "src/vector/ops/iter.rs", "src/matrix/ops/base.rs"],
 [("uninitialised buffers, element-wise moves, drop guard", "src/vector/base/init.rs (uninit, assume_init, init, InitGuard)"),
  ("stream construction with clean-up of a short source", "src/vector/base/iter.rs (try_from_iter, unzip, scan)"),
  ("in-place transpose of an uninitialised copy", "src/matrix/transpose.rs")],
 ["drops of instrumented elements", "panic payload seen by the caller", "contents of surviving containers"],
 [("partially initialised buffer", "elements already built while the caller's code is still running", "src/vector/base/init.rs, src/vector/base/iter.rs")])

prop("C02", "Structural operations keep every element at its documented place",
 "Over any history of structural operations - map, zip, unzip, enumerate, scan, fold, for-each, transpose, indices, diagonal, rows and columns, x/y/z/w and re/im accessors, conversions to and from arrays, tuples, nested vectors, slices, complex, quaternion, Moebius and transform parts - with some of them cut short by a panic in caller code, each element ends up exactly at its documented index (row-major for matrices) with its value unchanged. A caller's closure is called exactly once per element, in index (row-major) order, with the accumulator threaded through in that order. An interrupted operation has called the closure for exactly a prefix of that order. An index outside of the dimensions is refused by a panic and reaches no element.",
 ["histories", "crash_points", "fault_sequences"],
 "all histories of structural operations over all element types and dimensions, and every caller callback as crash point",
 "Tests check single fault-free calls on one or two shapes each with Copy numbers; call order, call counts, prefix behaviour under a crash and composition over long histories are not observed.",
 ["src/vector/base/iter.rs", "src/vector/base/init.rs", "src/vector/spec.rs", "src/matrix/base/init.rs", "src/matrix/base/iter.rs", "src/matrix/base/convert.rs", "src/matrix/transpose.rs", "src/matrix/square.rs", "src/complex/complex_.rs", "src/complex/quaternion.rs", "src/complex/moebius.rs", "src/transform/chain.rs"],
 [("element-wise combinators", "src/vector/base/iter.rs, src/matrix/base/iter.rs"),
  ("layout conversions", "src/matrix/base/convert.rs, src/vector/base/init.rs"),
  ("unchecked accessors", "src/vector/spec.rs, src/matrix/base/init.rs")],
 ["returned containers", "sequence of closure invocations with their arguments", "references returned by accessors"])

prop("C03", "Building from a stream takes exactly what it needs, or nothing",
 "Building a vector or matrix from an iterator succeeds exactly when the source yields enough items before its first end, and then holds the first items in order (row-major) having pulled exactly that many; what follows stays in the source. If the source ends early the result is None (and a slice of the wrong length is refused), everything already pulled is dropped, and the source is not polled again after its end. This holds for sources that resume after an end, panic, are infinite, or misreport their size, and grouping or summing such a stream yields precisely its consecutive chunks or its total.",
 ["fault_sequences", "inputs", "crash_points", "histories"],
 "all source behaviours (short, exact, long, infinite, resuming after end, panicking at any pull, lying size hints), all dimensions, all histories of several constructions from one source",
 "Tests use well-behaved arrays and ranges of the right length or one item short; faulty sources and exact consumption are never checked.",
 ["src/vector/base/iter.rs", "src/matrix/base/convert.rs", "src/vector/ops/iter.rs", "src/matrix/ops/iter.rs", "src/complex/complex_.rs", "src/complex/quaternion.rs"],
 [("try_from_iter", "src/vector/base/iter.rs"), ("GroupIter and matrix streams", "src/vector/base/iter.rs, src/matrix/base/convert.rs"), ("Sum/Product", "src/vector/ops/iter.rs, src/matrix/ops/iter.rs")],
 ["log of pulls on the source", "result", "items left in the source", "drops"])

prop("C04", "Iterators can be abandoned, resumed and crashed without losing elements",
 "Iterating over a container (by value, by shared or by mutable reference, or through the flattening iterator over a sequence of sequences) yields every element exactly once in index (row-major) order and then keeps reporting the end; empty rows or sub-sequences and zero dimensions neither end it early nor make it fail. If the caller stops at any point, or the caller's loop body or a sub-sequence panics at any point, what was yielded is exactly a prefix, the elements not yet yielded are intact (borrowed) or dropped exactly once (owned), and an iterator that survived resumes with the next element. Writes through a mutable iterator land on exactly the elements yielded.",
 ["histories", "crash_points", "fault_sequences"],
 "all interleavings of next/stop/drop/resume and adapter calls, all dimensions including zero, all panic points, all shapes of nested sequences",
 "Tests run each iterator once to completion over non-empty 2- and 3-element containers; abandonment, resumption, empty sub-sequences and panicking bodies are not sampled.",
 ["src/vector/base/iter.rs", "src/matrix/base/iter.rs"],
 [("FlatIter", "src/matrix/base/iter.rs"), ("IntoIterator impls", "src/vector/base/iter.rs, src/matrix/base/iter.rs")],
 ["items yielded", "container contents after the iterator is gone", "drops"],
 [("current sub-iterator", "position inside the row being yielded", "src/matrix/base/iter.rs")])

prop("C05", "Interrupted compound assignment leaves every component old or new",
 "For +=, -=, *=, /=, %=, &=, |=, ^= on vectors and matrices (container or scalar right-hand side) and += -= *= /= on complex numbers and quaternions (same type, complex or scalar right-hand side), completion means every addressed component holds exactly its new value and no other component changed. If the scalar operator panics at any point, each component of the target holds either exactly its old or exactly its new value (or what the interrupted scalar operator itself left in it), never anything else, and the target is usable and can be assigned to again. The right-hand side is consumed once and each component operator is applied at most once.",
 ["crash_points", "histories", "fault_sequences"],
 "all compound operators, all dimensions, all scalar types whose operators may panic or fail half-way, every operator invocation as crash point, repeated assignments to the same target",
 "Tests apply each operator once to primitive numbers, whose operators cannot be interrupted; intermediate states are never visible to them.",
 ["src/vector/ops/base.rs", "src/vector/ops/bit.rs", "src/matrix/ops/base.rs", "src/matrix/ops/bit.rs", "src/complex/complex_.rs", "src/complex/quaternion.rs"],
 [("component-wise loops over iter_mut and into_iter", "src/vector/ops/base.rs, src/matrix/ops/base.rs"), ("replace-on-success for products and quotients", "src/complex/complex_.rs, src/complex/quaternion.rs")],
 ["target after a completed or interrupted assignment", "number of operator applications"])

CONC = ["schedules", "crash_points", "histories"]
prop("C06", "Vector and matrix computations are isolated, re-entrant and crash-transparent",
 "A vector or matrix computation over a caller-supplied scalar (element-wise arithmetic, comparison, bit and integer operations, reductions, norms, float functions with broadcasting, dot, cross and outer products, matrix products, determinant, cofactor, adjugate, inverse, diagonal and identity) returns exactly the value its mathematical definition gives for its own operands. This holds however it is interleaved, at scalar-operation granularity, with other computations on the same or other threads, when scalar operations re-enter the library, when operands are shared, and when earlier or concurrent computations were aborted by a panicking scalar. If one of its own scalar operations panics, that panic propagates, no value is returned and no operand or other computation is affected.",
 CONC, "all schedules of several concurrent and re-entrant computations at scalar-operation granularity, every scalar operation as crash point, all operands over an exact scalar",
 "Tests run one computation at a time on primitive floats; nothing suspends, re-enters or aborts a computation half-way, so shared or leftover state, and results that depend on it, cannot show.",
 ["src/vector/ops/base.rs", "src/vector/ops/bit.rs", "src/vector/ops/int.rs", "src/vector/ops/vcmp.rs", "src/vector/math.rs", "src/vector/dot.rs", "src/vector/spec.rs", "src/matrix/ops/base.rs", "src/matrix/ops/bit.rs", "src/matrix/ops/int.rs", "src/matrix/ops/vcmp.rs", "src/matrix/math.rs", "src/matrix/product.rs", "src/matrix/square.rs"],
 [("zip/map/fold over owned operands", "src/vector/ops, src/matrix/ops"), ("row/column mask of the recursive determinant", "src/matrix/square.rs (Determinator)")],
 ["returned values", "panic payload", "operands after the call"],
 [("sub-matrix mask", "rows and columns excluded so far in the cofactor expansion", "src/matrix/square.rs")])
prop("C07", "Complex, quaternion and Moebius computations are isolated and crash-transparent",
 "A complex, quaternion or Moebius computation over a caller-supplied scalar (sums, products and quotients in every mix of quaternion, complex and scalar, remainder, conjugate, norm, inverse, powers, matrix form, dot, units; Moebius application, composition, inverse, determinant and derivative on complex numbers and quaternions; float functions) returns exactly the value its mathematical definition gives for its own operands. This holds however it is interleaved, at scalar-operation granularity, with other computations on the same or other threads, when scalar operations re-enter the library, and when earlier or concurrent computations were aborted by a panicking scalar. If one of its own scalar operations panics, that panic propagates, no value is returned and no operand or other computation is affected.",
 CONC, "all schedules of several concurrent and re-entrant computations at scalar-operation granularity, every scalar operation as crash point, all operands over an exact scalar",
 "Tests evaluate identities on random floats one at a time within a tolerance; nothing suspends, re-enters or aborts a computation half-way.",
 ["src/complex/complex_.rs", "src/complex/quaternion.rs", "src/complex/moebius.rs"],
 [("component formulas", "src/complex/complex_.rs, src/complex/quaternion.rs"), ("matrix representation of Moebius maps", "src/complex/moebius.rs")],
 ["returned values", "panic payload", "operands after the call"])
prop("C08", "Transform chains, inverses and derivatives agree along any crashed history",
 "Along any history of composing, inverting, reordering, splitting, applying and differentiating transformations (shift, linear, scale, 2D and 3D rotation, affine and other shift-based chains, Moebius), a composed transformation maps every point exactly as applying its parts in order (C = A.chain(B) means C(x) = A(B(x))), an inverse undoes it on both sides, identity changes nothing, and its derivative, direction and normal maps compose the same way. This holds however the history is interleaved, at scalar-operation granularity, with other histories on the same or other threads and with scalar operations that re-enter the library, and after earlier steps were aborted by a panicking scalar and retried. If a scalar operation panics inside a step, that panic propagates and the transformations involved are unchanged.",
 CONC, "all histories of transform operations, all schedules of several such histories, every scalar operation as crash point, all operands over an exact scalar",
 "Tests chain two random float transforms of one kind within a tolerance; long mixed histories, interrupted and retried steps and concurrent histories are not exercised.",
 ["src/transform/mod.rs", "src/transform/chain.rs", "src/transform/shift.rs", "src/transform/linear.rs", "src/transform/scale.rs", "src/transform/rotation.rs", "src/transform/affine.rs", "src/transform/moebius.rs"],
 [("Reorder-based chain algebra", "src/transform/chain.rs"), ("group operations per transform", "src/transform/shift.rs, linear.rs, scale.rs, rotation.rs, moebius.rs")],
 ["images of points and directions", "composed and inverted transforms", "panic payload"])

prop("C09", "Formatting reports every sink failure and writes only a prefix of the text",
 "Formatting a vector, matrix, complex number or quaternion (Display or Debug) writes, to a healthy sink, the type name, the dimensions and every component once in index (row-major) order in its documented layout. If the sink fails, writes partially or panics at any write, or formatting of a component fails or panics, the error or panic is reported to the caller, what reached the sink is a prefix of that text, and nothing more is written to the sink after its failure. Formatting never panics by itself for any dimension and never changes the value.",
 ["fault_sequences", "crash_points", "inputs"],
 "every write to the sink and every component formatter as failure point, all dimensions including zero, torn writes, repeated formatting of the same value",
 "Only one quaternion is formatted in the tests, to an infallible String.",
 ["src/vector/base/format.rs", "src/matrix/format.rs", "src/complex/format.rs"],
 [("write! chains with error propagation", "src/vector/base/format.rs, src/matrix/format.rs, src/complex/format.rs")],
 ["bytes accepted by the sink", "Result returned by fmt", "calls after the failure"])

prop("C10", "Random objects meet their guarantee under any randomness source",
 "Whatever words the random generator delivers (stuck, biased, extreme, repeating or bursty), every sampled object meets what its distribution promises: NonZero has a norm above epsilon, Unit has norm one, Invertible has a determinant above epsilon and hence a finite inverse, uniform rotations are proper rotations, and normal samples are finite. No such sample is NaN or infinite and sampling never panics by itself. A rejecting sampler may keep drawing while the source is faulty, but returns within a bounded number of draws once the source is healthy again, and a panic of the generator passes through unchanged.",
 ["fault_sequences", "inputs", "crash_points"],
 "all word streams and fault sequences of the generator, every draw as crash point, f32 and f64, all supported types and dimensions",
 "Tests draw a few hundred samples from one well-behaved generator with a fixed seed; rejection paths (probability around 1e-16 or less) are never taken.",
 ["src/distr.rs", "src/vector/distr.rs", "src/matrix/distr.rs", "src/complex/distr.rs", "src/transform/rotation.rs", "src/transform/affine.rs", "src/transform/linear.rs"],
 [("rejection loops", "src/vector/distr.rs, src/matrix/distr.rs"), ("Box-Muller on a half-open interval", "src/distr.rs")],
 ["sampled objects", "number of words drawn", "panic payload"])
prop("C11", "A composite sample draws exactly its parts, in order, from the generator",
 "A random vector, matrix, complex number, quaternion, shift, linear map, scale or affine map is exactly what its parts are when sampled one after another from the same generator (vectors by index, matrices row-major, affine shift first and then linear), and it leaves the generator exactly where those draws leave it. Per-component vector and matrix distributions call the inner distribution exactly once per component in that order, whatever it returns. Sampling depends on nothing but the words drawn, so the same seed gives the same bits on any thread, after any interleaving with other samplers sharing or not sharing the generator, and after aborted samples.",
 ["schedules", "fault_sequences", "histories", "crash_points"],
 "all interleavings of several samplers over shared and separate generators, all word streams, every draw as crash point, all composite types and dimensions",
 "Tests only use samples as inputs to algebraic identities; the stream a sample consumes, its order and its reproducibility under sharing and aborts are never compared.",
 ["src/vector/distr.rs", "src/matrix/distr.rs", "src/complex/distr.rs", "src/transform/shift.rs", "src/transform/linear.rs", "src/transform/scale.rs", "src/transform/affine.rs", "src/distr.rs"],
 [("component-wise sampling through init", "src/vector/distr.rs, src/matrix/distr.rs"), ("delegation between distributions", "src/complex/distr.rs, src/transform/*.rs")],
 ["bits of the sample", "words drawn from the generator", "calls of the inner distribution"])
prop("C12", "Sampled objects follow the law their distribution names",
 "With a fair random generator, Normal gives every component of every type mean zero, variance one, the standard normal shape and no correlation between components or between successive samples; Unit gives points uniform on the sphere; Uniform gives 2D and 3D rotations uniform over the whole rotation group. NonZero and Invertible keep the law of Normal apart from the excluded set.",
 ["inputs", "histories"],
 "the ensemble of all word streams of a fair generator, for f32 and f64 and every supported type and dimension",
 "No test looks at the distribution of samples at all: any constant valid sample would pass.",
 ["src/distr.rs", "src/vector/distr.rs", "src/matrix/distr.rs", "src/complex/distr.rs", "src/transform/rotation.rs"],
 [("Box-Muller transform", "src/distr.rs"), ("normalised Gaussian", "src/vector/distr.rs"), ("uniform rotations", "src/transform/rotation.rs")],
 ["moments and tail frequencies over large seeded ensembles"])

prop("C13", "Floating-point results are accurate",
 "Products, norms, determinants, inverses, rotations and Moebius maps over f32 and f64 agree with the exact result within a small multiple of the rounding error that the conditioning of the input allows.",
 ["inputs"], "all finite float operands",
 "Tests sample a few hundred well-conditioned random operands with an absolute tolerance.",
 ["src/matrix/square.rs", "src/complex/quaternion.rs", "src/transform/rotation.rs", "src/transform/linear.rs"],
 [("closed formulas", "src/matrix/square.rs, src/transform/rotation.rs")], ["returned floats"])
prop("C14", "Approximate equality is component-wise",
 "Two values are approximately equal within an epsilon exactly when all their corresponding components are within that epsilon, for every container, number and transform type and for the default epsilon. This holds however the comparison is interleaved with other comparisons on the same or other threads and after comparisons that were aborted by a panic of a component's own comparison; such a panic propagates and no verdict is given.",
 ["schedules", "crash_points", "inputs"], "all verdicts of the component comparisons, every component comparison as crash and preemption point, all epsilons, all dimensions",
 "Tests use it as their own comparison and never test it for being too lax.",
 ["src/vector/approx.rs", "src/matrix/approx.rs", "src/complex/approx.rs", "src/transform/chain.rs", "src/transform/rotation.rs"],
 [("zip/map/all", "src/vector/approx.rs, src/matrix/approx.rs")], ["returned boolean", "panic payload"])
prop("C15", "Primitive scalars implement the scalar traits by definition",
 "For every primitive scalar the L1, L2 and L-infinity norms are the absolute value, dot is the product, conjugation is the identity, and the epsilon test holds exactly for magnitudes up to machine epsilon.",
 ["inputs"], "all values of all primitive types",
 "Not tested at all.", ["src/traits.rs"], [("derive macros", "src/traits.rs")], ["returned values"])
prop("C16", "The crate behaves the same in every feature configuration",
 "Whatever history of operations a caller runs, disturbed by panics, re-entry, interleaving and faulty sources or not, its outcome is the same (up to the rounding of the platform's elementary functions) with and without the std, rand and approx features, for every operation that the configuration offers: what holds of containers, iterators, arithmetic, transformations, formatting, comparison and sampling holds in every configuration or in none. Every combination of the features builds, and without the std feature the crate itself does not need the standard library.",
 ["configurations", "histories", "schedules", "crash_points"], "all feature combinations, along all histories, schedules and crash points of the other properties",
 "The suite runs in the default configuration; the others are at most built.", ["Cargo.toml", "src/lib.rs"], [("feature gates", "src/lib.rs")], ["build results", "returned values", "calls into caller code"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
