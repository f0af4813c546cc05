#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
BS, RS = "src/bezier_spline.inc", "src/rational_bezier_spline.inc"
BH, RH = "src/bezier_spline.hpp", "src/rational_bezier_spline.hpp"
BP = "src/utils/algorithms/bernstein_polynomial.hpp"
RC = "src/utils/algorithms/recursive_combine.hpp"
FB = "src/utils/fastbinomialcoefficient.hpp"
TC = "src/utils/binomialcoefficientlookuptablecreator.hpp"
PT, B64, LG = "src/point.hpp", "src/utils/base64.hpp", "src/utils/logger.hpp"
AH = "src/utils/computational_differentiation/algo_diff_type.hpp"
AI = "src/utils/computational_differentiation/algo_diff_type.inc"
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("P01", "Evaluation equals the Bernstein form",
  "For every polynomial Bezier spline - any parametric dimension, any mix of degrees per direction (degree zero included), scalar- or point-valued control points - and every parameter value, both evaluation routes (recursive interpolation and basis-function summation) return, up to rounding, the tensor-product Bernstein combination of the control points. At the corners of the parametric domain that is the corner control point, and evaluating never changes the spline.",
  ["inputs"], "all degrees below the binomial limit, all parametric/physical dimensions and scalar types, all finite control points, all parameters (inside, on and beyond the unit domain)",
  "The mapping tests evaluate a handful of 1D-3D splines with fixed small degrees at a few points; unequal and zero degrees, high degrees, other scalar types and degenerate data are not sampled.",
  [BS, BP, RC, PT], [("de Casteljau collapse", BS + " Evaluate"), ("basis summation", BS + " ForwardEvaluate"), ("cartesian product of factors", RC)],
  [("control_points", "coefficients, first direction fastest", BH), ("index_offsets", "stride per direction", BH)],
  ["return values of Evaluate/ForwardEvaluate", "control points before/after the call"])

p("P02", "Basis functions and their derivatives",
  "For every spline and parameter, the basis functions come back exactly one per control point, in control-point order, and equal the tensor products of the Bernstein polynomials; inside the unit domain they are non-negative and sum to one. Per-direction contributions have degree+1 entries that multiply out to the same values. Basis-function derivatives of every (mixed) order equal the true derivatives and are all zero once an order exceeds the degree in its direction.",
  ["inputs"], "all degrees, dimensions, parameters and derivative multi-orders (zero, below, at and above the degree)",
  "The Bernstein tests check a few degrees at fixed parameters; the identity for every degree/parameter/order combination and the ordering in several directions are only sampled once.",
  [BP, RC, BS, FB], [("forward/backward power sweep", BP + " Evaluate"), ("derivative formula", BP + " EvaluateDerivative"), ("RecursiveCombine", RC)],
  [], ["BasisFunctions", "BasisFunctionContributions", "BasisFunctionsDerivatives", "BasisFunctionsDerivativeContributions"])

p("P03", "Polynomial derivatives of every order",
  "For every spline and every multi-order of differentiation, the derivative spline represents, at every parameter, exactly the mixed partial derivative of the original function, with each degree lowered by the order taken in that direction; pointwise derivative evaluation agrees with it at every parameter. Taking more derivatives than the degree allows yields the zero function (never an endless loop, a crash or garbage), and differentiating in steps equals differentiating at once.",
  ["inputs", "histories"], "all splines, all derivative multi-orders including mixed ones and ones above the degree, all parameters, all ways to split an order into steps",
  "The tests differentiate a few fixed splines along fixed orders; mixed orders in unequal-degree tensor splines and orders beyond the degree are not reached.",
  [BS, BP, FB], [("in-place finite-difference sweep", BS + " DerivativeWRTParametricDimension"), ("basis derivative summation", BS + " EvaluateDerivative")],
  [], ["derivative spline's degrees and control points", "EvaluateDerivative values"])

p("P04", "Order elevation preserves the function",
  "Raising the order of a spline along any parametric direction, any number of times and in any interleaving of directions, raises exactly that degree by one per call and leaves the represented function unchanged at every parameter up to rounding. The result depends only on how often each direction was raised, not on the order of the calls.",
  ["inputs", "histories"], "all splines, all sequences of elevations over all directions",
  "Existing tests elevate a few fixed splines once or twice; long interleaved sequences, zero degrees and higher dimensions are not covered.",
  [BS, RS], [("back-to-front in-place interpolation", BS + " OrderElevateAlongParametricDimension"), ("stride refresh", BS + " UpdateIndexOffsets_")],
  [("degrees", "degree per direction", BH), ("number_of_control_points", "product of degree+1", BH)], ["control points, degrees and offsets after each call"])

p("P05", "Splitting partitions the spline",
  "Splitting a spline along any direction at any position strictly inside the unit interval, or at any sorted list of positions, yields pieces of unchanged degrees which, mapped back to their parameter sub-intervals, reproduce the original function everywhere; an empty list yields the spline itself. Positions that are not strictly inside (0,1), or a list that is not sorted, are refused with an exception, and the original spline is never modified.",
  ["inputs"], "all splines, directions, split positions and lists of positions, valid and invalid",
  "The splitting tests use few fixed positions; direction, unequal degrees, long lists, close positions, and refusals are only spot-checked.",
  [BS, RS], [("de Casteljau subdivision by layer", BS + " SplitAtPosition"), ("relative position in the remainder", BS + " SplitAtPosition(vector)")],
  [], ["returned pieces", "exceptions", "the original spline after the call"])

p("P06", "Addition, subtraction, scaling and translation are pointwise",
  "For any two splines of the same parametric dimension, with whatever degrees in each direction, sum and difference (in-place and out-of-place) represent the pointwise sum and difference of the two functions with the larger degree per direction; scaling, negation and adding or subtracting a point (from either side) act pointwise likewise. In-place and out-of-place forms agree, operands other than the target are never modified, every operation terminates, and it stays correct when an operand aliases the target or one of its own control points.",
  ["inputs", "histories"], "all pairs of splines with equal, larger, smaller and crosswise different degrees; all scalars and points; aliased operands",
  "The operations tests use pairs of equal or near-equal degrees in fixed directions; crosswise degree differences, aliasing and the out-of-place subtraction with a higher-degree right-hand side are not exercised.",
  [BS, BH], [("degree matching by elevation", BS + " operator+/operator-"), ("in-place forms", BS + " operator+=/-=/*="), ("friend injections", BH)],
  [], ["result function and degrees", "operands before/after"])

p("P07", "Products and integer powers are pointwise",
  "The product of two splines represents the pointwise product of the two functions (scalar times scalar, scalar times point in either order, and point times point as the dot product) with the degrees added per direction. Raising a scalar spline to any non-negative integer power represents the pointwise power with degrees multiplied by the power, power zero being the constant one; raising a point-valued spline to a power is refused.",
  ["inputs"], "all pairs of splines with degree sums below the binomial limit, all value kinds, all powers",
  "Tests multiply a few low-degree splines; unequal degrees per direction, degree zero, high degrees and larger powers are not sampled.",
  [BS, FB], [("binomial-weighted convolution", BS + " CombineControlPointsForProduct_"), ("square-and-multiply", BS + " RaisePower")],
  [], ["product control points, degrees, values"])

p("P08", "Functional composition equals nested evaluation",
  "Composing an outer polynomial spline with an inner polynomial spline whose control points lie in the unit cube gives a polynomial spline which, at every parameter, equals the outer spline evaluated at the inner spline's value, with degrees equal to the outer total degree times the inner degrees. Composing with a list of inner splines gives the individual compositions in order. An inner spline that leaves the unit cube is refused with an exception.",
  ["inputs"], "all outer/inner pairs of matching dimensions (parametric dimension of the inner free), all degrees within the binomial limit, inner splines inside, touching and leaving the unit cube",
  "Composition tests compare fixed geometries at fixed points; unequal outer degrees, degree-zero cases, boundary-touching inner splines and lists are not covered.",
  [BS], [("Bernstein basis splines by repeated products", BS + " ComposeNumeratorHelper"), ("unit-cube guard", BS + " Compose"), ("group composition", BS + " Compose(vector)")],
  [], ["composition values against nested evaluation", "exceptions"])

p("P09", "Composition involving rational splines equals nested evaluation",
  "Whenever the outer spline, the inner spline or both are rational (positive weights, inner control points in the unit cube), their composition is a rational spline that equals, at every parameter, the outer function evaluated at the inner function's value. An inner spline that leaves the unit cube is refused with an exception in each of these combinations, and constant weights give the same function as the polynomial composition.",
  ["inputs"], "all three rational combinations, all positive weights, all matching dimensions and degrees, inside and outside the unit cube",
  "Existing tests check each combination on a single fixed geometry; the refusal for a rational outer with rational inner spline is untested.",
  [BS, RS, RH], [("numerator with homogeneous complement w-c", BS + " ComposeNumeratorHelper"), ("denominator power", BS + " ComposeDenominatorSpline"), ("guards", RH + " Compose")],
  [], ["composition values against nested evaluation", "exceptions"])

p("P10", "Composition sensitivities are the exact control-point gradients",
  "For every outer/inner pair, polynomial or rational on either side, the composition sensitivity returns one spline per outer control point, in control-point order, equal at every parameter to the derivative of the composed function with respect to that (unweighted) control point. Hence summing control point times sensitivity reproduces the composition and, for a perturbed outer spline, the change of the composition; inner splines leaving the unit cube are refused.",
  ["inputs"], "all four polynomial/rational combinations, all degrees, weights and dimensions, all perturbations",
  "The sensitivity tests verify a few fixed configurations; completeness over combinations, dimensions, weights and ordering is not decided.",
  [BS, RS], [("sensitivity branch", BS + " ComposeNumeratorHelper<true>"), ("rescaling by weights", RS + " ComposeSensitivity")],
  [], ["sensitivity splines' values", "exceptions"])

p("P11", "Rational evaluation, basis functions and accessors",
  "For every rational spline with positive weights and every parameter in the unit domain, both evaluation routes return the weighted Bernstein combination divided by the weight function; the rational basis functions are one per control point, non-negative, sum to one and reproduce the value from the unweighted control points. Control points, weighted control points and weights read back consistently for every index form, equal weights reduce to the polynomial spline, and scaling all weights changes nothing.",
  ["inputs"], "all rational splines (any dimension, degrees, positive weights of mixed magnitude), all parameters, all index forms",
  "The rational tests evaluate a circle and few fixed splines; multi-direction index access and the second evaluation route are not tested against the definition.",
  [RS, RH], [("numerator over denominator", RS + " Evaluate"), ("basis route", RS + " ForwardEvaluate"), ("unweighted/weighted basis", RS + " BasisFunctions"), ("index access", RS + " ControlPoint")],
  [("weighted_spline_", "control points times weights", RH), ("weight_function_", "denominator", RH)], ["all return values"])

p("P12", "Rational derivatives follow the quotient rule to every order",
  "For every rational spline with positive weights, every parameter and every mixed derivative order, the pointwise derivative equals the true derivative of the quotient, the derivatives of the rational basis functions reproduce it from the unweighted control points (and sum to zero), and the derivative spline of first and higher order represents the same function - also along directions of degree zero and for orders above the degree.",
  ["inputs"], "all rational splines, parameters and derivative multi-orders (including order zero and orders above the degree)",
  "Tests compare a few orders on few fixed splines; mixed orders in three directions, zero degrees and orders above the degree are not covered.",
  [RS, BP], [("generalised Leibniz recursion", RS + " EvaluateDerivative"), ("basis recursion", RS + " BasisFunctionsDerivatives"), ("repeated quotient rule", RS + " DerivativeWRTParametricDimension")],
  [], ["derivative values"])

p("P13", "Rational algebra is pointwise",
  "Sum, difference and product of two rational splines, with equal or different weight functions and whatever degrees, represent the pointwise sum, difference and product of the two functions; scaling, negation and translation by a point act pointwise as well, in-place and out-of-place forms agree, and the result always stays a valid rational spline (numerator and weight function of equal degrees). Operands are not modified and aliased operands give the same result.",
  ["inputs", "histories"], "all pairs of rational splines with equal/different weights and degrees, all scalars and points, aliased operands, chains of operations",
  "The tests add and multiply few fixed pairs; degrees that differ between directions, equal-weights shortcuts and aliasing are not sampled.",
  [RS, RH], [("common denominator", RS + " operator+/-"), ("equal weight shortcut", RS + " operator+"), ("in-place forms", RS + " operator+=/-=/*=")],
  [], ["result function", "numerator/denominator degrees"])

p("P14", "Rational refinement preserves the function",
  "Order elevation (any sequence of directions) and splitting (single position or sorted list, any direction) of a rational spline leave the represented function unchanged on the whole domain respectively on each piece's sub-interval, keep numerator and weight function compatible and weights positive; invalid split positions and unsorted lists are refused with an exception.",
  ["inputs", "histories"], "all rational splines with positive weights, all elevation sequences and split positions/lists, valid and invalid",
  "Tests refine one or two fixed rational splines; other dimensions, directions, lists and refusals are not reached.",
  [RS, BS], [("joint elevation", RS + " OrderElevateAlongParametricDimension"), ("joint splitting", RS + " SplitAtPosition")],
  [], ["pieces and their values", "exceptions"])

p("P15", "Bounding corners, convex hull and unit-cube fitting",
  "The reported minimum and maximum corners are the component-wise extremes of the (unweighted) control points and enclose every value the spline takes on the unit domain (positive weights for rationals). Affine rescaling acts component-wise on the function; fitting a spline into the unit cube maps it affinely so that every non-flat component spans exactly [0,1], every flat component stays inside the cube and the spline then passes the unit-cube test, which holds exactly for splines whose corners lie in [0,1] in every component. Extracting a component gives the scalar spline of that coordinate, and an out-of-range component is refused.",
  ["inputs"], "all splines including flat, single-point and negative ones, any dimension; splines exactly touching and minimally exceeding the cube",
  "Tests fit one or two generic splines; flat components, scalar splines, boundary touching and rational corners are not sampled.",
  [BS, RS], [("corner scans", BS + " MaximumCorner/MinimumCorner"), ("rescaling", BS + " TransposeAndScale/FitIntoUnitCube"), ("cube test", BS + " FitsIntoUnitCube"), ("component extraction", BS + " ExtractDimension")],
  [], ["corners, predicates, control points after fitting"])

p("P16", "Control-point storage and indexing stay coherent",
  "After any sequence of construction, degree updates, elevation, differentiation, splitting, algebra and composition, the number of control points equals the product of degree+1 over the directions and the size of the stored list; scalar and multi-index forms are inverse bijections in first-direction-fastest order; and every accessor form (variadic, array, const and mutable) addresses the same stored point. Writing through an accessor changes that point only.",
  ["histories", "inputs"], "all operation histories over polynomial and rational splines of any dimension",
  "Tests look at indices of a few freshly built splines, never after operation histories.",
  [BS, BH, RS, RH], [("stride computation", BS + " UpdateIndexOffsets_"), ("index maps", BS + " LocalToGlobalIndex/GlobalToLocalIndex"), ("degree update", BH + " UpdateDegrees")],
  [("index_offsets", "stride per direction", BH), ("number_of_control_points", "cached size", BH)], ["index maps, accessors, sizes after each operation"])

p("P17", "Automatic differentiation yields exact values and gradients",
  "For every expression built from the supported operations of the differentiation type (arithmetic with variables and constants on either side, in-place forms, powers, roots, exponentials, logarithms, absolute value, trigonometric functions and inverses), evaluated at any point where the expression is differentiable, the value equals the plain scalar evaluation and the derivatives equal the exact gradient, for compile-time and run-time numbers of derivatives alike. Comparisons order by value only, and aliasing an operand with the target does not change the result.",
  ["inputs", "programs"], "all expression trees over the supported operations, all admissible points including zeros, ones and domain edges, any number of derivatives",
  "Tests check each operation once at fixed values; compositions of operations, aliasing and edge values are not sampled.",
  [AH, AI], [("operator rules", AI), ("function rules", AI + " exp..atan"), ("comparisons", AH)],
  [("v_", "value", AH), ("d_", "gradient", AH)], ["GetValue", "GetDerivatives", "comparison results"])

p("P18", "Nested differentiation and differentiation through splines",
  "Nesting the differentiation type in itself yields exact second derivatives (with symmetric mixed ones) together with exact values and gradients, for every expression over the operations available to the nested type. Evaluating a spline whose control points or parameters carry derivatives yields the same value as plain evaluation and, as derivatives, the basis functions respectively the parametric derivatives of the spline.",
  ["inputs", "programs"], "all expressions of nested variables and all admissible points; all splines with differentiable control points or parameters",
  "One fixed expression of second order is tested; other operations in nested form and splines over the differentiation type are not.",
  [AH, AI, BS], [("dispatch on nested scalar", AI), ("scalar-generic de Casteljau", BS + " Evaluate")],
  [], ["nested values and derivatives"])

p("P19", "Base64 export round-trips and is canonical",
  "Encoding any list of values (any trivially copyable scalar type, or points) gives exactly the canonical padded Base64 text of the bytes of that list and of nothing else; decoding that text to the same type gives back the identical list - same number of elements, bit-identical values, including the empty list, special values and every length.",
  ["inputs"], "all lengths including zero, all element types (1 to 16 bytes, points of any dimension), all bit patterns",
  "The tests round-trip one vector of doubles and one of points of a length divisible by three bytes.",
  [B64], [("group loop and padding", B64 + " Encode"), ("decode table", B64 + " Decode")],
  [], ["encoded text against an independent encoder", "decoded elements bit for bit"])

p("P20", "Base64 coding never touches memory outside its buffers",
  "Encoding and decoding never read or write outside the given input and the returned list, whatever the element type, the length of the list or the contents of the text: any text whose length is a multiple of four - also with padding in odd places, with foreign or non-ASCII characters, or with a byte count that does not fit the element size - is decoded without memory errors or undefined behaviour, giving at most the number of whole elements the text can carry.",
  ["inputs"], "all texts of length divisible by four over all 256 byte values; all lists and element types",
  "Tests decode only well-formed text produced by the encoder, without memory instrumentation.",
  [B64], [("bounds handling in Encode", B64 + " Encode"), ("group write-out", B64 + " Decode"), ("character table lookup", B64 + " Decode")],
  [], ["sanitizer reports", "decoded list size and content"])

p("P21", "Point arithmetic is component-wise and alias-safe",
  "For points of any dimension and scalar type, addition, subtraction, negation, scaling and division by scalars (either side), dot product and norms equal their component-wise definitions, in-place and out-of-place forms agree, operands are not modified, and results stay correct when an operand aliases the target or a component of it. The text form lists all components in order.",
  ["inputs"], "all dimensions, scalar types, values and alias patterns",
  "The point tests use a handful of fixed 3D points and no aliasing.",
  [PT], [("operators", PT), ("text form", PT + " toString")],
  [], ["results and operands"])

p("P22", "Combinatorial helpers are exact",
  "For every configured maximum degree, each binomial coefficient delivered is the exact integer; integer powers are exact for every integer type as long as the result is representable; the index sort returns a stable ordering permutation; and combining per-direction factors yields all products in first-direction-fastest order.",
  ["inputs", "configurations"], "all n below the configured limit and all k<=n, several limits; all representable base/power pairs of each integer type; all lists including ties; all factor lists",
  "Tests check some entries of the table for one limit, and integer powers of small ints.",
  [FB, TC, "src/utils/algorithms/int_power.hpp", "src/utils/algorithms/sort.hpp", RC],
  [("Pascal recursion at compile time", TC), ("lookup", FB), ("square-and-multiply", "src/utils/algorithms/int_power.hpp"), ("stable sort", "src/utils/algorithms/sort.hpp")],
  [], ["returned integers, permutations, products"])

p("P23", "Operation histories are memory-safe and match a reference model",
  "Any well-formed history of library operations over a pool of polynomial and rational splines - construction, copying, elevation, differentiation, splitting, algebra, composition, rescaling, evaluation, including ones that are refused with an exception - executes without out-of-bounds access, use of freed or uninitialised memory, leaks or undefined behaviour, leaves every spline in the pool equal to its reference model, and gives the same results in checked debug and in optimised builds.",
  ["histories", "configurations"], "all histories of public operations over all spline kinds; debug/assertion-checked and optimised builds",
  "Unit tests run single operations on fresh objects, without memory instrumentation, in one build configuration.",
  [BS, RS, BH, RH, BP, RC, FB], [("in-place index arithmetic", BS), ("joint numerator/denominator updates", RS), ("asserted preconditions", BH)],
  [], ["sanitizer reports", "spline state against the model after each step", "result digests across builds"])

p("P24", "Concurrent read-only use is race-free and deterministic",
  "Any number of threads may use the non-modifying operations of shared splines (evaluation, derivatives, basis functions, splitting, algebra producing new splines, composition, extraction, corners) and modify their own separate splines at the same time without data races, and every thread obtains bit-identical results to a sequential run.",
  ["schedules", "histories"], "all interleavings of const operations on shared splines with arbitrary operations on thread-private splines",
  "No test uses threads.",
  [BS, RS, LG, FB, AI], [("no mutable state behind const operations", BH), ("singleton logger access", LG + " Get"), ("compile-time tables", FB)],
  [("Logger::Get static", "process-wide singleton touched by every operation", LG)], ["ThreadSanitizer reports", "results per thread against sequential ones"])

p("P25", "Diagnostics are delivered exactly once and never alter results",
  "With logging compiled in, every message is delivered exactly once, completely and in order to precisely the sinks enabled for its severity at that time (console and the log, warning and error files), and is not lost when critical errors or further messages follow; reconfiguring the level takes effect for all following messages. A critical error always reaches the caller as an exception of the requested type carrying its text, and logging (in or out, at any level) never changes any computed result.",
  ["histories", "configurations"], "all sequences of messages, level changes and critical errors; all level masks; logging compiled in or out",
  "The logger is compiled into no test at all.",
  [LG], [("severity masks", LG), ("lazy opening of files", LG + " init"), ("critical error path", LG + " TerminatingError_")],
  [("outputlevel_", "sink mask", LG), ("log_file/warning_file/error_file", "open streams", LG)], ["file contents and console text against the sent sequence", "exceptions", "result digests with and without logging"])

p("P26", "Splines are values: copies are independent and equality is exact",
  "Copying, assigning or moving a spline (polynomial or rational) yields an equal spline, and later changes to either never show in the other; operations that return a new spline leave all their operands unchanged, including when operands are the same object, and a refused operation leaves its operands unchanged. Two polynomial splines compare equal exactly when all degrees and all control points are equal; a polynomial spline converted to a rational one represents the same function.",
  ["histories", "inputs"], "all splines, all pairs differing in exactly one degree or one component of one control point, all non-modifying operations, self-operands",
  "Tests compare results only and never check that operands survive or that copies are independent.",
  [BH, BS, RH, RS], [("defaulted copy/move", BH), ("equality", BS + " operator=="), ("const-qualified operations", BH), ("conversion", RH)],
  [], ["bitwise snapshots before/after each operation", "operator== results"])

p("P27", "Running out of memory is reported and corrupts nothing",
  "If an allocation fails at any point inside an operation (evaluation, derivatives, algebra, products, compositions, splitting, elevation, degree updates, copies and assignments, conversions, coding, sorting, differentiation, refused operations), the caller gets an exception (or the operation copes and gives its normal result), nothing is leaked, every operand it does not modify keeps its value, an object it was modifying can still be destroyed and given a new value, and later operations behave as if the failure had not happened.",
  ["faults", "crash_points", "inputs"], "every allocation made by every operation, as the one that fails",
  "Allocations never fail in a unit test.",
  [BS, RS, BH, RH, B64, AH], [("storage is owned by standard containers", BH), ("no cleanup code outside destructors", BS), ("logger lock released by scope", LG)],
  [], ["exceptions", "count of live blocks", "snapshots of all operands", "results of the repeated operation"])

p("P28", "One library across translation units and program phases",
  "Every header works when it is the only one included, and any headers may be included repeatedly, in any order and in any number of translation units and shared objects of one program, which then links. All units share one library: a level set in one applies to messages from all of them, their messages go to the same files exactly once and in the order sent, and every unit computes the same results - also before main starts and while static objects are destroyed.",
  ["configurations", "histories"], "all sets, orders and repetitions of the headers; all histories of messages, level changes and operations spread over units and over the phases before, in and after main",
  "Each test program is a single unit that includes one header first and does everything inside main.",
  [LG, BH, RH, AI, FB, B64], [("singleton in an inline static function", LG + " Get"), ("include guards and includes of every header", BH), ("constant-initialised tables", FB)],
  [("Logger::Get static", "one per process", LG)], ["build and link of multi-unit programs", "console and files against the sent sequence", "result digests per unit and phase"])

p("P29", "Microstructures are connected, exact and differentiable",
  "Filling a deformation function with a tile - splitting both into groups of splines and composing every patch with every element, polynomial or rational - gives patches that lie exactly where the unsplit functions put them, meet their neighbours without gaps inside an element and across elements (if the tile's opposite faces fit), keep their control points within the range of their element's, keep circular arcs circular, follow the chain rule, change with the deformation's control points as the sensitivities predict (which themselves agree on common faces), and survive the exchange as Base64 text. The example program of such a structure builds.",
  ["inputs", "histories"], "all deformation functions, tiles, partitions and moves of control points, in one to three dimensions",
  "The tests check single operations on hand-picked splines; nothing checks a structure as a whole, and the example is not even compiled.",
  [BS, RS, BH, RH, BP, B64, "example/Microstructure/microstructure_build.cpp"],
  [("composition", BS + " Compose"), ("partition", BS + " SplitAtPosition"), ("sensitivities", BS + " ComposeSensitivity"), ("example", "example/Microstructure/microstructure_build.cpp")],
  [], ["positions on common faces", "control point ranges", "predicted changes", "decoded splines", "build of the example"])

p("P30", "Splines over any scalar type",
  "Every operation of polynomial and rational splines - evaluation, basis functions and their derivatives, differentiation, elevation, splitting, algebra between splines, scalars and points, products, powers, corners and unit-cube fitting, component extraction, composition of all four kinds and its sensitivities - is available for differentiated scalars of compile-time size over any built-in floating-point type and for differentiated scalars of differentiated scalars, and the derivatives of the results with respect to everything that entered - control points, weights, parameters, split positions, scalars - are the exact ones, to every order carried. Over an exact scalar type (rational numbers, and differentiated scalars over them) every result is exact, with no rounding introduced anywhere. Input that is refused for built-in scalars (outside the unit cube, non-existing components or directions, powers of points) is refused for these as well.",
  ["inputs"], "all splines, operands, parameters and derivative directions over five scalar types, equal values with different derivatives included",
  "The tests differentiate one or two evaluations; most operations were never even compiled for a scalar type other than double.",
  [BS, RS, BH, RH, BP, AH, AI, PT], [("generic scalar arithmetic", BS), ("weights with derivatives", RS), ("dual numbers", AH)],
  [], ["values and derivatives of every result against exact arithmetic", "refusals"])

p("P31", "Operations keep to themselves",
  "An operation of the library changes nothing but its result or target and needs nothing but its operands. While it runs nothing is written to the console (accepted operations without diagnostics) or to files, no descriptor, thread, signal handler, locale, stream format, rounding mode, flush-to-zero or trap setting, random-number sequence, environment variable or process limit of the program is changed; no memory is kept once the results are gone, however often and with however many different operands it is called; no invalid floating-point operation or division by zero happens on the way (programs that trap them survive). The results are the same bit for bit when repeated, under a foreign global locale, with an unusable console and under other environment variables. Refused operations behave alike, apart from the message on the console and the exception.",
  ["inputs", "histories"], "all operations, operands and settings of the surrounding program",
  "The tests look at results only; a debugging message, a changed stream format or a cache that grows is invisible to them.",
  [BS, RS, BP, RC, B64, PT, AI, LG], [("evaluation and algebra", BS), ("rational operations", RS), ("coding", B64), ("text form", PT + " toString")],
  [("process state", "console, files, locale, floating-point environment, heap", "process")], ["process state before/after every operation", "bytes of repeated results"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
