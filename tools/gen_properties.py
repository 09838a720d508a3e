#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": state or [],
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "Active numbers compute the ordinary floating-point value",
 "Evaluating any expression built from the supported operations on active numbers gives the same value (up to floating-point rounding) as the same expression on plain floats of that precision. This holds for every operand form (active with active, active with plain float on either side, compound assignment), with or without recording, and whatever derivative seeds are carried.",
 ["programs", "inputs"], "every expression over the supported operations, every finite input in the domain, f32 and f64, every subset of inputs that is recorded",
 "Existing tests evaluate one fixed arithmetic expression at one or two points and check values of the non-linear functions nowhere.",
 ["src/afloat.rs", "src/operation.rs"],
 [("elementary operation evaluation", "src/operation.rs: zero_order_value"), ("operator and Float trait implementations", "src/afloat.rs: binary_op!, assign_op!, impl Float")],
 ["value of the resulting active number", "function evaluation on plain floats"])

prop("C02", "The generic numeric interface behaves as for the underlying float",
 "For every value of the underlying float type, constants, conversions to and from numbers, parsing, comparison, classification and decoding of an active number give what the underlying float gives, and conversions and constants carry no derivative. Numeric operations that the library does not differentiate are refused by a panic and never return a number.",
 ["inputs"], "every f32/f64 value including infinities, NaN, signed zeros and subnormals; every method of the numeric traits",
 "No test touches conversions, comparison or constants of active numbers; the domain is all floats.",
 ["src/afloat.rs"],
 [("pass-through and constants", "src/afloat.rs: float_passthrough!, float_constant!, ToPrimitive, NumCast, Num, PartialOrd"), ("refusal", "src/afloat.rs: float_unsupported!, Rem")],
 ["numeric trait methods on active numbers"])

prop("C03", "Tapeless forward derivatives are the exact directional derivatives",
 "For any differentiable expression over the supported operations and any seed direction, the derivative carried by the result equals the mathematical directional derivative of the expression, up to rounding. Plain floats and constants contribute no derivative, and this includes points such as a zero or negative base under a constant integer exponent and operands that are the same variable.",
 ["programs", "inputs"], "every smooth expression, every point where it is differentiable, every seed vector, f32 and f64",
 "Existing tests check nine unary functions at 0.5 (with a one-sided comparison) and one expression; no power with two active operands, no sharing, no negative arguments.",
 ["src/operation.rs", "src/afloat.rs"],
 [("first-order rules", "src/operation.rs: first_order_value"), ("propagation", "src/afloat.rs: from_op")],
 ["dvalue of results"])

prop("C04", "A recorded tape replays the recorded function at any input",
 "Re-evaluating a recording at a new input gives the outputs the recorded expression has at that input, including all stored intermediate results used by later derivative sweeps. The result depends only on the last input given, not on where the function was recorded nor on earlier re-evaluations, even ones at inputs where the function is undefined.",
 ["programs", "inputs", "histories"], "every straight-line program over the supported operations (including max/min/abs), every recording point, every sequence of replay points",
 "One test replays one arithmetic expression once at one point.",
 ["src/tape.rs", "src/acontext.rs", "src/operation.rs", "src/afloat.rs"],
 [("replay", "src/tape.rs: Tape::zero_order; src/operation.rs: Operation::zero_order"), ("recording with constants", "src/afloat.rs: from_op, src/acontext.rs: record")],
 ["tape outputs after replay", "derivative sweeps after replay"],
 [{"name": "stored values", "meaning": "value per recorded id", "where": "src/acontext.rs: vals"}])

prop("C05", "A tape is a complete, well-formed and isolated snapshot",
 "A tape taken from a recording lists exactly the declared inputs and outputs in declaration order with their values, counts absolute-value operations exactly (one per abs, max or min), and each of its operations only uses values defined before it. It is a snapshot: later recording, replaying or cloning of it never changes another tape or the recording.",
 ["programs", "histories"], "every recording history (inputs declared at any time, constants and inputs as outputs, repeated outputs), followed by any later operations",
 "Tests look at three two-operation recordings and never continue recording after taking a tape.",
 ["src/acontext.rs", "src/tape.rs", "src/function.rs"],
 [("declaration", "src/acontext.rs: set_indep, set_dep, tape"), ("accessors", "src/tape.rs: x, y, num_indeps, num_deps, num_abs, max_id"), ("function taping", "src/function.rs: Function::tape")],
 ["tape accessors"])

prop("C06", "A tape's forward sweep is the Jacobian applied to a direction",
 "At the stored point of a tape of a differentiable function, the forward sweep with direction dx returns J*dx for the true Jacobian J: it equals the mathematical derivative, is linear in dx, and agrees with carrying the same direction through the computation without a tape.",
 ["programs", "inputs"], "every smooth program with any numbers of inputs and outputs, every point and direction",
 "Tests sweep one-input one-output functions with direction 1 only.",
 ["src/tape.rs", "src/operation.rs"],
 [("forward sweep", "src/tape.rs: first_order_forward; src/operation.rs: Operation::first_order")],
 ["result of the forward sweep"])

prop("C07", "A tape's reverse sweep is the transposed Jacobian",
 "At the stored point of a tape of a differentiable function, the reverse sweep with weights w returns the true transposed Jacobian applied to w, and so agrees with the forward sweep (the two inner products coincide). This includes outputs that are inputs, constants, used by other outputs or listed several times, and inputs that are unused or used repeatedly.",
 ["programs", "inputs"], "every smooth program, every point, every weight vector, every aliasing between inputs and outputs",
 "Tests use single-output functions and a 2x2 polar map; no shared or repeated outputs, no two-argument operation with equal operands in reverse beyond one expression.",
 ["src/tape.rs", "src/operation.rs"],
 [("reverse sweep", "src/tape.rs: first_order_reverse; src/operation.rs: Operation::first_order_reverse")],
 ["result of the reverse sweep"])

prop("C08", "Jacobian drivers return the full true Jacobian",
 "For any differentiable function with n inputs and m outputs, the forward and the reverse Jacobian drivers both return the m-by-n matrix of partial derivatives with each entry in its place, whatever the dimensions and the number of worker threads. The reverse driver panics on a tape containing an absolute value instead of returning a matrix.",
 ["programs", "inputs", "schedules"], "every smooth function with n, m from 0 to dozens, every point, every split of the parallel work",
 "Tests use one 2-by-2 map at one point.",
 ["src/drivers/jacobian.rs"],
 [("forward driver", "src/drivers/jacobian.rs: jacobian_forward"), ("reverse driver", "src/drivers/jacobian.rs: jacobian_reverse"), ("refusal", "src/operation.rs: first_order_reverse Abs")],
 ["returned matrix"])

prop("C09", "Forward propagation through abs/max/min is the piecewise linearization",
 "For functions containing abs, max or min, forward propagation of an increment (with or without tape) yields the increment of the piecewise linearization at that point: smooth operations are linearized, absolute values are evaluated exactly on value plus increment. So for a piecewise linear function the propagated increment is exactly f(x+dx)-f(x), and for any function the error shrinks quadratically with dx.",
 ["programs", "inputs"], "every abs-factorable program, every point (including kinks) and every increment, small or large",
 "No existing test checks increments through abs directly; only halfpipe on a non-negative grid via the drivers.",
 ["src/operation.rs", "src/tape.rs", "src/afloat.rs"],
 [("abs increment", "src/operation.rs: first_order_value Abs"), ("max/min via abs", "src/afloat.rs: max, min, abs_sub")],
 ["dvalue, forward sweep result"])

prop("C10", "The abs-normal form represents the piecewise linearization",
 "The dense abs-normal form (a, Z, L, b, J, Y) of a function at a point has the dimensions given by its inputs, outputs and absolute values, L strictly lower triangular, and entries equal to the partial derivatives of the switching variables and outputs with respect to the inputs and the absolute values. With z = a + Z dx + L|z|, the value b + J dx + Y|z| equals the increment of the piecewise linearization for every dx; at dx = 0 z is the vector of arguments of the absolute values.",
 ["programs", "inputs"], "every abs-factorable function (any order of n, m, s, including s=0 and repeated arguments of abs), every point and increment",
 "Tests use the halfpipe (n=2,m=1,s=2) on a non-negative grid and one function with s=1; the shape-dependent branches, sharing and negative values are not reached.",
 ["src/drivers/abs_normal.rs"],
 [("switching tape", "src/drivers/abs_normal.rs: AbsNormalTape::new"), ("dense form", "src/drivers/abs_normal.rs: abs_normal")],
 ["fields of the returned form"])

prop("C11", "Products with abs-normal blocks agree with the dense blocks",
 "For each of the four blocks Z, L, J, Y of a switching tape, multiplying from the left or right, taking a row or a column, and the reported sizes all agree with one and the same dense matrix of partial derivatives, for matrices of any compatible shape including empty ones. The switching tape itself maps inputs and absolute values to switching variables and outputs, and reports x, y and z of the underlying function.",
 ["programs", "inputs"], "every switching tape, every block, every compatible left/right factor with any number of rows/columns",
 "Tests multiply the halfpipe blocks by identities; row() and column() are never called.",
 ["src/drivers/abs_normal.rs"],
 [("block views", "src/drivers/abs_normal.rs: anf_matrix! (mul_right, mul_left, row, column, nrows, ncols)"), ("switching tape", "src/drivers/abs_normal.rs: AbsNormalTape")],
 ["products, rows, columns, sizes, x/y/z, replay of the switching tape"])

prop("C12", "The generalized Jacobian is the active linear piece of the linearization",
 "For a function, point x and increment dx, the returned matrix G and vector g are the Jacobian and offset of the linear piece of the piecewise linearization selected by the signs of the switching variables at dx. So G*dx + g is the increment of the piecewise linearization, for a smooth function G is the Jacobian and g is zero, and for a piecewise linear function f(x+dx) = f(x) + G*dx + g.",
 ["programs", "inputs"], "every abs-factorable function, every point and increment, any nesting depth of absolute values",
 "Tests use the halfpipe with s=2 on a small non-negative grid; nesting deeper than two and several outputs are not reached.",
 ["src/drivers/generalized_jacobian.rs"],
 [("fixed-point for switching variables and the transposed solve", "src/drivers/generalized_jacobian.rs: generalized_jacobian_tape")],
 ["homogenous, inhomogenous"])

prop("C13", "Ties are counted and resolved by the given sign bits in order",
 "The multiplicity of a generalized Jacobian is the number of switching variables that are exactly zero at the increment, plus that of the downstream result. Each tie takes the next bit of the sign string in order (least significant bit of each byte first, 1 positive, 0 negative, and negative once the string is exhausted), bits are consumed by ties only, and every choice still reproduces the increment.",
 ["inputs", "programs"], "every number of ties (more than eight, more than bits supplied), every sign string including the empty one, ties interleaved with non-ties",
 "Tests pass only the single byte 0; the bit reader is tested alone on two bytes and never with the driver.",
 ["src/drivers/generalized_jacobian.rs"],
 [("sign selection", "src/drivers/generalized_jacobian.rs: bit_iter and the sigma loop")],
 ["multiplicity, homogenous, inhomogenous"])

prop("C14", "A generalized Jacobian composes with a downstream one",
 "Passing the generalized Jacobian (G2, g2, k2) of what follows yields for the whole exactly the composition of the affine pieces: G2*G, g2 + G2*g and multiplicity k2 + k, where (G, g, k) is the result without downstream part. The downstream matrix may have any number of rows.",
 ["programs", "inputs"], "every function, point, increment, sign string, and every downstream triple of compatible size",
 "Tests pass only the 1-by-1 identity with zero offset and zero multiplicity.",
 ["src/drivers/generalized_jacobian.rs"],
 [("next argument", "src/drivers/generalized_jacobian.rs: generalized_jacobian_tape")],
 ["returned triple with and without downstream"])

prop("C15", "The chain driver differentiates the whole composition for any budget",
 "For any chain of functions (including a single function and nested chains), point and increment, the chain driver returns the matrix, offset and multiplicity of the generalized Jacobian of the composed function with ties resolved to negative. The result is the same for every permitted number of checkpoints and for the default.",
 ["programs", "inputs", "configurations"], "every chain length and nesting, every dimension profile, every checkpoint budget of at least two or the default",
 "One two-function chain with the default budget.",
 ["src/drivers/generalized_jacobian.rs", "src/drivers/checkpointing.rs", "src/function.rs"],
 [("chain driver", "src/drivers/generalized_jacobian.rs: generalized_jacobian_chain"), ("reverse walk", "src/drivers/checkpointing.rs: reverse_sequence")],
 ["returned triple"])

prop("C16", "Reverse walking gives the right fold for every length and budget",
 "For every number of steps and every budget of at least two checkpoints, walking a sequence in reverse returns the same result as storing the whole sequence and folding it from the back: the terminal callback is called once, on the last element, and the reverse callback exactly once per earlier element, in strictly descending order with the right element. Fewer than two checkpoints are refused by a panic.",
 ["inputs", "configurations"], "every step count from 0 to very long, every budget >= 2, every forward/reverse/terminal callback",
 "One run with 37 steps and 9 checkpoints and a commutative sum.",
 ["src/drivers/checkpointing.rs"],
 [("schedule", "src/drivers/checkpointing.rs: schedule, next_checkpoint, find_t"), ("walk", "src/drivers/checkpointing.rs: reverse_sequence")],
 ["callback sequence and result"])

prop("C17", "Reverse walking never holds more states than the checkpoint budget",
 "During a reverse walk the number of different sequence elements that are kept alive at any callback never exceeds the given number of checkpoints, for every length and budget; nothing is kept alive after the walk.",
 ["inputs", "configurations"], "every step count and every budget >= 2, at every callback",
 "No test observes memory use at all.",
 ["src/drivers/checkpointing.rs"],
 [("checkpoint stack", "src/drivers/checkpointing.rs: reverse_sequence, schedule")],
 ["live states at each callback"])

prop("C18", "Reverse walking needs the minimal number of forward steps",
 "The number of forward-step evaluations during a reverse walk is the minimum possible for that number of steps and checkpoints (the binomial optimum; no repetition at all when every element fits).",
 ["inputs", "configurations"], "every step count and every budget >= 2",
 "Unit tests compare a few literal schedules of 100 steps; total cost is never measured.",
 ["src/drivers/checkpointing.rs"],
 [("binomial schedule", "src/drivers/checkpointing.rs: beta, find_t, next_checkpoint, schedule")],
 ["count of forward callbacks"])

prop("C19", "A function chain behaves as the composition of its functions",
 "A chain takes the input size of its first and the output size of its last function, evaluates to the composition, and its tape, float evaluation and Jacobians are those of the composition, no matter how sub-chains are nested. Length, indexing and iteration enumerate the elementary functions in order, flattening nested chains, and appending a function whose input size does not fit is refused by a panic.",
 ["programs", "inputs"], "every list and nesting of functions with any compatible dimensions, every input",
 "One flat three-function chain of sums at an all-ones input; nesting is never tested.",
 ["src/function.rs"],
 [("chain", "src/function.rs: FunctionChain"), ("function defaults", "src/function.rs: Function::eval_float, Function::tape")],
 ["n, m, len, nth, iter, eval, tape"])

prop("C20", "Function-definition macros give plain and differentiable forms alike",
 "A function defined with the definition macro, in either argument form, with attributes, visibility, extra arguments and dimension expressions, compiles and computes the same on plain floats and on active numbers, and its function object reports the declared dimensions and evaluates and tapes the same body with the captured extra arguments. A wrong input length or a wrong result length is refused by a panic.",
 ["programs", "inputs"], "every definition of the documented shape, every body over the supported operations, every input",
 "Tests use a handful of hand-written definitions, destructured arguments without attributes only.",
 ["src/macros.rs", "src/function.rs", "src/scalar.rs"],
 [("macros", "src/macros.rs: adv_fn!, adv_fn_obj!, adv_dvec!"), ("scalar bounds", "src/scalar.rs")],
 ["generated function and function object"])

prop("C21", "Recordings are isolated and follow their handles' lifetime",
 "Under any interleaving of creating, using and dropping several recordings, each recording contains exactly the operations on its own variables, and combining variables of two live recordings, or declaring a foreign variable as output, is refused by a panic that leaves both recordings usable. Every live recording has a unique id, is found by that id, and is no longer found once its last handle is gone; variables that outlive it keep their values and can still be used with plain numbers or declared as inputs of another recording.",
 ["histories"], "every history of creation, lookup, declaration, arithmetic and dropping over several recordings",
 "One test creates and drops one recording; nothing interleaves two recordings.",
 ["src/acontext.rs", "src/afloat.rs"],
 [("registry", "src/acontext.rs: CONTEXT_MAP, AContextInner::new/drop, AContext::from_cid"), ("membership checks", "src/afloat.rs: from_op; src/acontext.rs: set_dep")],
 ["tapes, lookups and panics along the history"],
 [{"name": "registry of live recordings", "meaning": "id to weak handle", "where": "src/acontext.rs: CONTEXT_MAP"}])

prop("C22", "Concurrent recording is correct",
 "Recordings made at the same time on several threads give the same tapes as when made one after another, and taping, sweeps and drivers may run in parallel. Threads that record into one and the same recording never corrupt it: its tape is well formed, and replays and derivatives of what each thread computed are correct.",
 ["schedules", "programs"], "every interleaving of threads that record into own or shared recordings while others are created and dropped",
 "No existing test records from more than one thread deliberately.",
 ["src/acontext.rs", "src/afloat.rs"],
 [("locking", "src/acontext.rs: AContextInner in Mutex, CONTEXT_MAP, NEXT_CONTEXT_ID")],
 ["tapes recorded by each thread"])

prop("C23", "The C++ interface records the function the C++ expression denotes",
 "An expression written with the C++ classes (arithmetic with active and plain operands on either side, elementary functions, min and max) records the same function, inputs and outputs as the corresponding expression in Rust: replay and derivatives of the recording agree with the mathematical function. The plain-double overloads compute the ordinary functions.",
 ["programs", "inputs"], "every C++ expression over the exported operations, every input at which the recording is replayed",
 "The C++ tests are not run here and check no recorded result at all.",
 ["src/cxx/ADouble.cpp", "src/cxx/AContext.cpp", "src/ffi.rs", "include/adv/ADouble.hpp", "include/adv/AContext.hpp"],
 [("operator wrappers", "src/cxx/ADouble.cpp"), ("C ABI", "src/ffi.rs"), ("context wrapper", "src/cxx/AContext.cpp")],
 ["tape of the recording, looked up by id"])

prop("C24", "C++ objects have value semantics and leak or corrupt no memory",
 "Under any history of construction, copying, moving, assignment (including self-assignment) and destruction of the C++ number and recording objects, a copy stays independent of its source, a moved-to object has the source's former value, and every underlying object is freed exactly once, never used after being freed, and none is left when all C++ objects are gone.",
 ["histories"], "every history of object operations in C++, including objects that outlive their recording",
 "The C++ tests neither copy-assign, move nor self-assign, and no memory checker is used.",
 ["src/cxx/ADouble.cpp", "src/cxx/AContext.cpp", "src/ffi.rs"],
 [("special member functions", "src/cxx/ADouble.cpp, src/cxx/AContext.cpp"), ("ownership transfer", "src/ffi.rs: *_free, *_copy, *_new")],
 ["values of recordings and heap state after the history"])

prop("C25", "Sweeps work for any valid user-built tape, whatever its numbering",
 "A tape assembled by hand from the public operation constructors, with any distinct numbering of values, no-ops and constants interleaved, gives in replay, forward and reverse sweeps, counts, abs-normal form and drivers the same results as the function it spells out.",
 ["programs", "inputs"], "every valid operation list with arbitrary numbering, every point, direction and weight",
 "No test uses the operation constructors or implements the tape interface.",
 ["src/operation.rs", "src/tape.rs", "src/drivers/abs_normal.rs"],
 [("constructors", "src/operation.rs: Operation::add ... powf, constant, nop"), ("default sweeps", "src/tape.rs: Tape")],
 ["results of tape methods on a user-implemented tape"])

prop("C26", "Arguments of the wrong size are refused",
 "Replaying a tape, its forward and reverse sweeps, the Jacobian, abs-normal and generalized Jacobian drivers (point, increment, downstream part) and the products, rows and columns of abs-normal blocks accept only vectors, matrices and indices of fitting size: any other one, too short or too long, is refused by a panic instead of returning a result. A refused call leaves the tape as it was and usable.",
 ["inputs"], "every function, every argument length other than the right one",
 "No test passes a wrong size anywhere.",
 ["src/tape.rs", "src/drivers/jacobian.rs", "src/drivers/abs_normal.rs", "src/drivers/generalized_jacobian.rs"],
 [("length assertions", "src/tape.rs: zero_order, first_order_forward, first_order_reverse"), ("driver and block assertions", "src/drivers/*.rs: assert_eq! on nrows/ncols")],
 ["panic or returned value; tape values after the panic"])

prop("C27", "Active numbers can be nested: higher derivatives",
 "Active numbers over active numbers (AFloat<AFloat<f64>> and deeper, also over f32) carry the mixed derivatives of the corresponding orders of any composition of differentiable operations, also where a lower derivative happens to vanish. Recording nested numbers gives the same recording as plain ones. If the inner numbers are recorded, the recording is one of the derivative computation: its replay gives first derivatives, and its forward and reverse sweeps second derivatives.",
 ["inputs"], "every differentiable program, every point and every seeds of all orders",
 "No test nests active numbers.",
 ["src/afloat.rs", "src/operation.rs", "src/acontext.rs"],
 [("generic number type", "src/afloat.rs: from_op, impl Float for AFloat<S>"), ("derivative rules over generic numbers", "src/operation.rs: first_order_value")],
 ["all components of nested numbers; recordings, replays and sweeps"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
