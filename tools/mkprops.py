#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit titles, statements and anchors)."""
import json, os
R = "crates/minikalman/src/"
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, hook=None, state=None):
    a = {"files": [R + f for f in files],
         "mechanism": [{"name": n, "where": R + w} for n, w in mech],
         "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": R + w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

REG = "kalman/regular.rs"; EXT = "kalman/extended.rs"; CTL = "controls.rs"
OR = "observations/regular.rs"; OE = "observations/extended.rs"; TR = "matrix/traits.rs"; DT = "matrix/data_type.rs"

p("C01", "Linear prediction is x = A·x and P = A·P·Aᵀ + Q",
  "After a prediction step of the linear filter the state estimate is the transition matrix times the previous estimate, and the estimate covariance is A·P·Aᵀ plus the direct process noise, up to the rounding of the number type used. This holds for every number of states, every transition matrix (also non-symmetric, sparse, negative or singular ones), every symmetric covariance and process noise, and every one of arbitrarily many consecutive steps.",
  ["inputs", "histories", "configurations"], "All state counts, matrices, number types (f32, f64, fixed point), storage kinds and step counts.",
  "The tests run 3-state gravity examples and a few fixed small filters; none varies the state count, the matrix structure or the number type against an independent model.",
  [REG, TR], [("state and covariance prediction", REG + " predict_x, predict_P"), ("matrix products", TR + " mult, mult_transb, mult_rowvector")],
  ["state vector and estimate covariance before and after every predict call"])

p("C02", "Tuned prediction scales only the propagated covariance, by 1/λ²",
  "A prediction step with tuning factor λ yields, in the linear and in the extended filter, the same state as the plain prediction step and the covariance (A·P·Aᵀ)/λ² + Q, up to rounding. The process noise is never scaled, λ = 1 is the same as a plain prediction, and this holds for factors below, equal to and above one as well as negative ones.",
  ["inputs", "histories", "configurations"], "All λ ≠ 0 with representable 1/λ², all state counts, matrices and number types, both filter kinds.",
  "One integration test uses a single λ on one 3-state system; the extended filter's tuned step is only smoke-tested.",
  [REG, EXT, TR], [("tuned covariance propagation", REG + " predict_P_tuned"), ("tuned covariance propagation (EKF)", EXT + " predict_P_tuned"), ("scaled product", TR + " multscale_transb")],
  ["state vector and estimate covariance before and after every tuned predict call"])

p("C03", "Applying a control input adds B·u to x and B·Q·Bᵀ to P",
  "Applying a control input adds B·u to the state estimate and B·Q·Bᵀ (Q being the control's own process noise) to the estimate covariance, up to rounding, however the number of controls relates to the number of states and however often it is applied. A control with no inputs leaves the filter exactly as it was.",
  ["inputs", "histories", "configurations"], "All state and control counts (fewer, equal, more, none), all B, u, Q, all number types, repeated and interleaved application of several controls.",
  "The tests apply one control with fixed small matrices; no test has more controls than states or compares the covariance term with a model.",
  [CTL, REG, TR], [("control application", CTL + " apply_control"), ("accumulating products", TR + " multadd_rowvector, multadd_transb")],
  ["state vector and estimate covariance before and after every control call"])

p("C04", "Linear measurement update implements the Kalman equations",
  "For symmetric covariances with a positive definite innovation covariance S = H·P·Hᵀ + R, incorporating a measurement z moves the state to x + K·(z − H·x) and the covariance to P − K·H·P with K = P·Hᵀ·S⁻¹, up to rounding. This holds for every number of states and measurements, including more measurements than states, correlated measurement noise and sparse or zero observation rows.",
  ["inputs", "histories", "configurations"], "All state and measurement counts, all H, z, P, R with positive definite S, number types and repeated updates.",
  "The tests update 3-state filters with one or two measurements and compare a few printed digits; no test inverts an innovation covariance above 2×2 through the filter.",
  [OR, REG, TR], [("measurement update", OR + " correct"), ("factorisation and inversion of S", TR + " cholesky_decompose_lower, invert_l_cholesky")],
  ["state vector and estimate covariance before and after every correct call"])

p("C05", "Extended prediction uses the model function for x and the Jacobian for P",
  "An extended prediction step calls the supplied model function exactly once with the prior state estimate, and what the function writes becomes the new state estimate unchanged. The covariance becomes F·P·Fᵀ + Q for the stored Jacobian F, whatever the function computes; the Jacobian never influences the state.",
  ["inputs", "programs", "histories"], "All state counts, model functions, Jacobians, covariances and step sequences, including a Jacobian unrelated to the function.",
  "The tests use one or two fixed functions whose Jacobian matches; call counts and the argument seen by the function are not observed.",
  [EXT, TR], [("nonlinear state prediction", EXT + " predict_x_nonlinear"), ("covariance prediction", EXT + " predict_P")],
  ["arguments and number of calls of the model function", "state vector and estimate covariance before and after"])

p("C06", "Extended measurement update uses the innovation z − h(x)",
  "An extended measurement update calls the supplied observation function exactly once with the state estimate before the update, and moves the state to x + K·(z − h(x)) and the covariance to P − K·J·P with K = P·Jᵀ·(J·P·Jᵀ + R)⁻¹ for the stored observation Jacobian J, up to rounding. The measurement and the Jacobian may be unrelated to each other, and there may be more measurements than states.",
  ["inputs", "programs", "histories"], "All state and measurement counts, observation functions, Jacobians and noise covariances with positive definite innovation covariance.",
  "The tests use a radar example with 2 measurements and check coarse values; the function's argument and call count are not observed.",
  [OE, EXT, TR], [("nonlinear measurement update", OE + " correct_nonlinear")],
  ["arguments and number of calls of the observation function", "state vector and estimate covariance before and after"])

p("C07", "An extended filter with linear models matches the linear filter",
  "Driven with the same matrices, measurements and noises, an extended filter whose model functions are linear maps and the linear filter produce the same state and covariance at every step of every mission, up to rounding. Plain, tuned and measurement steps may be mixed in any order.",
  ["histories", "inputs", "configurations"], "All sequences of predict, tuned predict and correct steps, all sizes, matrices and number types.",
  "No test runs both filters side by side; each is only compared with hand-picked numbers.",
  [REG, EXT, OR, OE], [("two parallel implementations of the same equations", REG + ", " + R + EXT)],
  ["states and covariances of both filters after every step"])

p("C08", "Covariances stay symmetric and positive, and measuring reduces uncertainty",
  "Along every mission of predictions, controls and measurements with valid (symmetric, positive semidefinite) noises, the estimate covariance stays symmetric and positive semidefinite up to rounding, and states stay finite. A measurement update never increases the variance of any linear combination of the states, and a prediction or control never drops it below what the process noise alone contributes.",
  ["histories", "inputs", "configurations"], "All valid missions up to thousands of steps, stable and unstable dynamics, accurate and vague sensors, f32 and f64.",
  "The tests look at the covariance after at most a handful of steps of one 3-state system and never at its spectrum.",
  [REG, EXT, CTL, OR, OE, TR], [("covariance recursion", REG + " predict_P; " + R + OR + " correct")],
  ["eigenvalues and asymmetry of the estimate covariance after every step"])

p("C09", "Estimates agree with the statistically optimal batch solution",
  "For linear systems the filter's state and covariance after any sequence of steps agree, within rounding, with the information-form (weighted least squares) solution computed from all measurements at once. In particular independent measurements may be applied one by one in any order or stacked into one update with the same result.",
  ["histories", "inputs"], "All linear missions: every order and grouping of independent measurements, partial observations, correlated priors.",
  "The tests compare against recorded output of the same algorithm; no test computes the estimate by a different method or permutes measurements.",
  [REG, OR, TR], [("gain and covariance update", OR + " correct")],
  ["final state and covariance of permuted, grouped and batch runs"])

p("C10", "Filter steps never modify their parameters",
  "Predicting, applying controls and correcting change only the state estimate, the estimate covariance and working memory. The transition matrix or Jacobian, every process noise, the control matrix and input, the observation matrix or Jacobian, the measurement noise and the measurement itself read back bit for bit as they were set, so a step can be repeated without setting them again.",
  ["inputs", "histories", "configurations"], "All step sequences, sizes, values and number types, on linear and extended filters and on measurements and controls shared between filters.",
  "No test reads a parameter back after a step.",
  [REG, EXT, CTL, OR, OE], [("parameters are only borrowed immutably", REG + " predict_P, " + CTL + " apply_control, " + OR + " correct")],
  ["bit patterns of every parameter buffer before and after every step"])

p("C11", "Working memory never influences results",
  "The result of every step depends only on the state, the covariance and the parameters: what the temporary, predicted-state, innovation, residual-covariance and gain buffers contain beforehand (leftovers of earlier steps, of failed updates, of steps abandoned because a model function panicked, NaN or extreme values) has no effect. Two filters that differ only in that content stay identical through any mission.",
  ["histories", "inputs", "configurations"], "All contents of all working buffers before any step, all step sequences and sizes.",
  "The tests start from zeroed buffers; reuse after a step is only exercised incidentally and never with hostile content.",
  [REG, EXT, CTL, OR, OE, TR], [("scratch buffers are overwritten before being read", OR + " correct"), ("overwriting products", TR + " mult, mult_transb, multscale_transb, invert_l_cholesky")],
  ["results of runs whose scratch buffers were filled with different content before every step"])

p("C12", "Filters are independent of each other and deterministic",
  "Each filter behaves as if it were the only one: the same inputs always give the same outputs, in any thread, however the steps of different filters are interleaved (also when one filter runs inside the model function of another) and although filters may share a measurement or control object. After a measurement or control object has served one filter it serves the next one as a fresh object with the same parameters would.",
  ["schedules", "histories", "inputs"], "All interleavings of steps of several filters in one or more threads, with shared measurement and control objects.",
  "Every test owns one filter on one thread and runs it once.",
  [REG, EXT, CTL, OR, OE], [("all state lives in the filter's own buffers", REG), ("no global or cached values", TR)],
  ["outputs of interleaved, repeated and concurrent runs against isolated runs"])

p("C13", "Matrix products equal the mathematical product for every shape",
  "Each product operation (plain, buffered, with a vector, with a transposed right operand; overwriting, accumulating and scaled) computes exactly its documented formula for operands of every shape, up to rounding. Overwriting variants ignore what the target held, accumulating variants add to it, operands are left unchanged, and all variants agree with each other where their formulas coincide.",
  ["inputs", "configurations"], "All row/inner/column counts including 1 and rectangular shapes, all values, number types and storage kinds.",
  "The tests multiply a few fixed 2×3, 3×3 and 4×4 matrices in one number type.",
  [TR], [("product kernels", TR + " mult_buffered, mult, mult_rowvector, multadd_rowvector, mult_transb, multadd_transb, multscale_transb")],
  ["operands and target before and after each call"])

p("C14", "Elementwise operations and copies compute exactly their formula",
  "Addition and subtraction of matrices, in every in-place and out-of-place variant and operand order, compute exactly the documented elementwise formula for every shape, and copying transfers every element. The operand that is not the target keeps its value, and copying an empty matrix does nothing.",
  ["inputs", "configurations"], "All shapes (rectangular, vectors, empty), values, number types and storage kinds.",
  "The tests cover each operation on one or two fixed small matrices; operand order is checked on values where it rarely matters.",
  [TR], [("elementwise kernels", TR + " sub, add_inplace_a/b, sub_inplace_a/b, copy, copy_to, copy_from")],
  ["operands and target before and after each call"])

p("C15", "Cholesky decomposition is exact and recognises non-definite matrices",
  "For a symmetric positive definite matrix of any size the decomposition reports success and leaves a lower triangular factor L with positive diagonal, exact zeros above it and L·Lᵀ equal to the original, up to rounding. For a matrix that is clearly not positive definite, or whose entries are not numbers, it reports failure.",
  ["inputs", "configurations"], "All sizes and all symmetric matrices: definite, indefinite at any leading minor, zero or negative diagonal, NaN; f32, f64 and fixed point. Matrices singular within rounding are not judged.",
  "The tests decompose two fixed 3×3 matrices and one failing one.",
  [TR, DT], [("decomposition", TR + " cholesky_decompose_lower")],
  ["matrix before and after, and the returned flag"])

p("C16", "Inversion from the Cholesky factor yields the inverse of L·Lᵀ",
  "Given any lower triangular factor L with positive diagonal, the inversion yields the full symmetric matrix that is the inverse of L·Lᵀ, for every size, up to rounding scaled by the condition of the matrix. The factor itself is left unchanged and the previous content of the target does not matter.",
  ["inputs", "configurations"], "All sizes, all lower triangular factors (dense, diagonal, banded, badly scaled), number types and storage kinds.",
  "The tests invert fixed 1×1 to 3×3 factors.",
  [TR, DT], [("inversion", TR + " invert_l_cholesky")],
  ["factor and target before and after"])

p("C17", "Element, row, column and fill operations address row-major data correctly",
  "For every shape, element (row, column) read or written through any accessor is the row·columns + column-th value of the underlying data, row and column copies return exactly that row or column, and dimensions, lengths and emptiness are reported as declared. Fill, clear, symmetric set, identity, scalar-diagonal and similar setters write exactly the documented elements.",
  ["inputs", "configurations"], "All shapes and all index pairs, every accessor and setter, all storage kinds and number types.",
  "The tests read single elements, and rows or columns of one matrix; reading any row but the first of a non-trivial matrix was in fact wrong.",
  [TR, "matrix/row_major.rs", "matrix/data.rs"], [("addressing", "matrix/row_major.rs get_at, set_at"), ("row/column copies and setters", TR + " get_row_copy, get_column_copy, set_symmetric, make_identity, make_scalar, make_comatrix")],
  ["values returned and the backing data before and after"])

p("C18", "Storage kinds are interchangeable and memory outside the matrix is untouched",
  "Arrays, boxed slices, borrowed and mutably borrowed slices and wrapped storages give identical results in every matrix operation and filter step, and access through a wrapper, its inner data or an index sees the same memory. When a backing buffer is larger than its matrix, arithmetic, decomposition, copy and filter steps neither read nor write the surplus elements.",
  ["inputs", "configurations", "histories"], "All combinations of storage kinds for operands, targets and filter buffers, exact and oversized, all operations.",
  "The tests pick one storage kind per operation and never look beyond the matrix.",
  ["matrix/data.rs", "matrix/data/matrix_data_array.rs", "matrix/data/matrix_data_boxed.rs", "matrix/data/matrix_data_mut.rs", "matrix/data/matrix_data_ref.rs", "matrix/data/matrix_data_row_major.rs", "matrix/data/matrix_data_row_major_mut.rs", TR, "buffers/types.rs"],
  [("storage types", "matrix/data.rs"), ("loops bounded by the declared shape", TR)],
  ["results across storage kinds", "guard elements around and after each matrix"])

p("C19", "Undersized buffers are rejected, exact and oversized ones are accepted",
  "With assertions enabled, creating any filter, control or observation buffer from a slice or array with too few elements panics, and exact or larger ones are accepted with shape, length, buffer length and validity reported correctly. With the library's checks disabled, using an undersized buffer still never reads or writes memory outside it, so that no result depends on what lies there, and addressing a missing element panics.",
  ["inputs", "configurations"], "All buffer roles, all sizes from zero to above the requirement, arrays and slices, mutable and immutable variants, assertions on and off.",
  "The tests build a few exactly sized buffers; only some roles have one undersized test.",
  ["buffers/types.rs", "buffers/macros.rs", "matrix/data/matrix_data_array.rs", "matrix/data/matrix_data_boxed.rs", "matrix/row_major.rs"],
  [("size assertions in conversions", "buffers/types/"), ("validity query", "matrix/row_major.rs is_valid")],
  ["panic or success of each construction and use"])

p("C20", "Builders and buffer macros produce the documented shapes and contents",
  "Every allocating builder and every buffer or size macro yields, for every combination of states, controls and observations, a buffer with exactly the documented number of rows and columns, every element initialised as documented, wired to the right role so that the built filter, control and observation work together. Filters built by the allocating builders behave the same as hand-wired ones.",
  ["inputs", "configurations"], "All combinations of state, control and observation counts, all buffer roles, macro forms and number types, linear and extended builders.",
  "The tests build 3-state systems and check sizes for one combination, often a square one, where swapped dimensions go unnoticed.",
  ["buffers/builder.rs", "kalman_builder/regular.rs", "kalman_builder/extended.rs", "static_macros.rs", "lib.rs"],
  [("buffer builders", "buffers/builder.rs"), ("filter builders", "kalman_builder/"), ("macros", "static_macros.rs, " + R + "lib.rs")],
  ["reported shapes, contents and behaviour of built filters"])

p("C21", "Generic trait access is equivalent to direct access",
  "Every capability offered through the generic filter, control and observation traits reads and writes the same data and performs the same step, with the same result, as the corresponding method on the concrete type, and reports the same state, control and observation counts. Code written against the traits therefore behaves identically to code written against the types.",
  ["programs", "inputs", "histories"], "All trait capabilities (accessors, mutable accessors, predict, tuned predict, control, correct) on linear and extended filters, controls and observations, all sizes and missions.",
  "The tests call a few trait methods to see that they compile; returned references and step results are rarely compared.",
  ["kalman/filter_trait.rs", REG, EXT, CTL, OR, OE], [("delegating trait implementations", REG + ", " + R + EXT + ", " + R + CTL + ", " + R + "observations/")],
  ["results and addresses reached through trait and direct calls"])

p("C22", "Reciprocal and square root are as accurate as each number back end promises",
  "With the standard library or libm back end, reciprocal and square root of every finite positive f32 or f64 (and the reciprocal of negative ones) are accurate to within a few units in the last place; fixed-point ones to within a few quanta whenever the result is representable; the fast approximate back end stays within ten percent. Filter steps run in any of these number types, or in a user-supplied one, compute the same equations.",
  ["inputs", "configurations"], "All positive magnitudes from subnormal to the maximum (in normal range for the approximate back end), all back ends and number types.",
  "The tests evaluate a few values per type; the libm and approximate back ends have single-value tests.",
  [DT], [("per-type reciprocal and square root", DT + " recip, square_root")],
  ["function values and filter results against a high-precision reference"])

p("C23", "Matrices handed to nalgebra show the same elements in the same places",
  "A matrix passed to nalgebra shows there the same shape and, at every (row, column), the same element as in this library, for every shape including vectors and rectangular ones, and what nalgebra computes over it (reductions, mapping, transposition, comparison, component-wise operations, copies) is the mathematically correct result. A view never exposes memory outside the matrix: a backing array that is too small is refused.",
  ["inputs", "configurations"], "All shapes and values of array-backed matrices, element access and arithmetic through nalgebra.",
  "One test looks at the row and column count of one 2×3 matrix and never at an element.",
  ["matrix/nalgebra_support.rs"], [("raw storage implementation", "matrix/nalgebra_support.rs")],
  ["elements, shapes and results seen through nalgebra"])

p("C24", "No use of the library causes undefined behaviour",
  "No program that uses the library through its safe interface, and no program that follows the documented static-buffer pattern, causes undefined behaviour, in particular out-of-bounds access, use of uninitialised memory, invalid aliasing or data races; any access beyond a buffer, whether through an out-of-range index or because the buffer is too small, ends in a panic. This holds in every feature configuration, including the one that enables unsafe code.",
  ["programs", "inputs", "configurations"], "All safe call sequences, in- and out-of-range indices, all storage kinds and sizes, all feature sets.",
  "The tests run natively, where a small out-of-bounds read or aliasing violation is invisible.",
  ["matrix/nalgebra_support.rs", "matrix/row_major.rs", "static_macros.rs", "matrix/data.rs"], [("bounds-checked slices, unsafe code forbidden unless enabled", "lib.rs"), ("raw pointer view", "matrix/nalgebra_support.rs")],
  ["the interpreter's and the sanitizers' reports"])

p("C25", "Filter steps never allocate, and never panic on valid input",
  "Constructing filters from caller-supplied buffers and running predictions, controls and measurement updates performs no heap allocation in any configuration, and only the explicitly allocating builders allocate. With correctly sized buffers no step panics, aborts or fails to return, whatever finite or non-finite floating-point values are supplied.",
  ["inputs", "histories", "configurations"], "All step sequences and sizes, all floating-point values including NaN and infinities, indefinite covariances, zero λ.",
  "No test observes the allocator, and the tests feed only well-behaved numbers.",
  [REG, EXT, CTL, OR, OE, TR], [("all working memory is supplied by the caller", OR), ("no heap types in the step functions", TR)],
  ["allocator calls during every step", "panics"])

p("C26", "Features, build profile and checks do not change results",
  "The library builds with every combination of its documented features. The same mission with the same number type gives the same results whichever optional features are enabled (standard library or libm, allocation, fixed point, unsafe code, interoperability, disabled checks) and whether built with or without debug assertions and optimisation, up to rounding of square root and reciprocal. The approximate back end gives exactly the same results wherever neither square roots nor f32 reciprocals are involved.",
  ["configurations", "inputs", "histories"], "All supported feature combinations and build profiles, all missions and sizes.",
  "Each test checks one build against loose expectations; no test compares two builds.",
  [DT, TR, CTL, OR, REG, EXT], [("conditional compilation", DT + ", " + R + TR)],
  ["recorded results of one mission set across builds"])

p("C27", "Working memory may be shared where the documentation allows it",
  "Filters, controls and observations whose temporary buffers share the same memory in a way the field documentation permits (S⁻¹ with K·H·P or with H·P, H·P with P·Hᵀ, P·Hᵀ with K·H·P, the filter's temporary P with the control's B·Q, and combinations of these that the documentation does not exclude) perform every step with exactly the same result as with separate memory. The library never holds two of the buffers that may be shared at the same time, so that user-supplied buffer types over one memory block are sound.",
  ["programs", "inputs", "histories", "configurations"], "All permitted ways of sharing (complete or partial overlap), all sizes, number types, linear and extended filters, step sequences.",
  "No test shares memory between buffers; a reordering or a reused intermediate that breaks sharing changes nothing with separate memory.",
  [OR, OE, CTL, REG, EXT], [("documented sharing of temporaries", OR + ", " + R + OE + " temp_S_inv, temp_HP, temp_PHt, temp_KHP"), ("order of the intermediate results", OR + " update_with_innovation"), ("temporary B·Q and P", CTL + " apply_control, " + R + REG + " predict_P")],
  ["state vector, estimate covariance and parameters after every step, with separate and with shared working memory"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        assert x["statement"].count(". ") <= 3, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
