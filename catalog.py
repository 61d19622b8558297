"""What is claimed: the properties, in words. props.py says which monitors decide them; gen.py writes properties.jsonl and MANIFEST.json."""
H = "include/dsga.hxx"
X = "examples/"
CATALOG = {}


def P(pid, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    CATALOG[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique,
                        note=note, observe=observe or [], state=state or [])


EXPL = "Exploration: nothing is claimed about inputs, programs or histories which were not run. "
ASAN = "Runs under AddressSanitizer and UndefinedBehaviorSanitizer with no recovery and libstdc++ assertions. "

P("P01", "A named swizzle reads exactly the lanes its letters spell",
  "For every vector, view, constant view and view-backed vector and every swizzle name over the letters x, y, z and w that exists for its size, reading through the name yields the lanes which the letters spell, in that order, with repeats. Indexing, iterating, converting to a vector, get<>() and using it as an operand all agree, and reading never writes.",
  ["inputs", "programs"], "every swizzle name of every size, every storage kind, every lane content, every way of reading",
  "The tests spell out a few dozen of the 340 names, for one or two element types; a wrong index in one of the rest is not seen.",
  [H], [("generic swizzle storage and index tables", "struct indexed_vector, struct indexed_view"), ("swizzle name declarations", "basic_vector<T,1..4>, basic_view<M,T,1..4>")],
  "runtime differential monitor: generated names against an index model of the letters; ASan+UBSan",
  EXPL + ASAN + "All names are visited; lane contents are sampled.", ["swizzle members", "operator[], begin(), conversion, get<>()"])

P("P02", "Writing through a swizzle changes exactly the named lanes",
  "For every swizzle name without repeated letters over numeric lanes, assigning or compound assigning through it stores each source lane in the lane its letter names and leaves every other lane and all neighbouring memory unchanged, whatever kind of vector the source is. A name with repeated letters, a constant vector and a constant view accept no writes.",
  ["inputs", "programs"], "every name, every storage kind, every source kind (also the same name on another object), every way of writing, every content",
  "Tests write through a handful of names and look only at the result, not at the lanes and memory which must not change; rejected programs cannot appear in them.",
  [H], [("swizzle assignment and set()", "indexed_vector::operator =, indexed_view::operator ="), ("writability of an index sequence", "writable_swizzle, detail::unique_indexes")],
  "runtime differential monitor with guard lanes around every target, acceptance probes; ASan+UBSan",
  EXPL + ASAN + "Assignment between two swizzles of the same name from constant or expiring sources is a known finding.", ["all lanes and surrounding memory after each write"])

P("P03", "Overlap between the ends of an assignment never changes its outcome",
  "When the source of an assignment, compound assignment, set, swap or function with an output argument shares storage with the target, in any arrangement of swizzles, views and view-backed vectors, the outcome is as if the source had been read completely before anything was written. Swapping partially overlapping views is refused with an exception and changes nothing.",
  ["inputs", "programs"], "every pair of overlapping ends: permuted and repeated swizzles of one vector, views -4..4 lanes apart, vectors seen through views of themselves",
  "Aliasing matters only for particular pairs of lane orders and offsets; the tests try three or four of them, with one operator.",
  [H], [("assignment evaluates into a local copy", "basic_vector/basic_view/indexed_* operator =, machinery::binary_op_execute"), ("overlap test in swap", "basic_view::swap")],
  "runtime differential monitor of whole memory snapshots against a read-all-then-write model; ASan+UBSan",
  EXPL + ASAN, ["whole memory before and after"])

P("P04", "Vector arithmetic is C++ scalar arithmetic lane by lane",
  "For vectors, swizzles and views of any size and any two compatible element types, +, -, *, /, % and unary plus and minus give in every lane exactly what the C++ operator gives for the two lane values, with the C++ result type. A scalar or one-lane operand on either side acts on every lane, and the operands are not changed.",
  ["inputs", "programs"], "every operator, operand type pair, size, operand form (vector, scalar, one-lane vector on either side) and value, including NaN, infinities, signed zeros, subnormals and integer extremes",
  "Tests use a few friendly values and mostly equal types; conversions, operand order and special values are not settled by them.",
  [H], [("binary operators", "operator +, -, *, /, % templates and *_op functors"), ("lane application", "machinery::binary_op_execute")],
  "runtime differential monitor, bit exact against native scalar operators; ASan+UBSan",
  EXPL + ASAN + "Inputs for which the native operation would be undefined are not presented.", ["operator results and their types"])

P("P05", "Bitwise operators and shifts act lane by lane as in C++",
  "For every pair of integral element types, &, |, ^, <<, >> and ~ on vectors, swizzles and views give in every lane what C++ gives for the two lane values, with the C++ result type, for vector-vector, vector-scalar, scalar-vector and one-lane operands. ",
  ["inputs", "programs"], "every operator, integral type pair, size and operand form; every bit pattern, every in-range shift count",
  "Tests use small positive ints of one type.",
  [H], [("bitwise and shift operators", "operator &, |, ^, <<, >>, ~ templates")],
  "runtime differential monitor, exact against native scalar operators; ASan+UBSan", EXPL + ASAN, ["operator results and their types"])

P("P06", "Compound assignment and increment are the binary operation in place",
  "Every compound assignment on a writable vector, swizzle, view or view-backed vector leaves in each lane the value of the binary operation converted to the lane type, touches nothing else, and returns the object itself. Prefix and postfix ++ and -- change every lane by one and return the object and its old value respectively.",
  ["inputs", "programs"], "every operator, writable storage kind, element type pair, size, right hand side form and value",
  "Tests check int and float vectors with one operand each, and never look around the target.",
  [H], [("compound operators", "operator +=, -=, *=, /=, %=, &=, |=, ^=, <<=, >>= templates"), ("increment and decrement", "operator ++, --")],
  "runtime differential monitor with guard lanes; ASan+UBSan", EXPL + ASAN, ["target, returned reference, old value, guard lanes"])

P("P07", "Where the lanes are stored never changes a result",
  "Any operator or function applied to operands with the same lane values gives the same result, bit for bit and of the same type, whether each operand is a vector, a constant vector, a swizzle, a view, a constant view, a swizzle of a view or a view-backed vector. No operand is changed by it.",
  ["inputs", "programs"], "every function and operator of the vector API, every assignment of storage kinds to its operands, every size and element type",
  "There are 8 storage kinds per operand; tests use plain vectors almost everywhere, so an overload which handles views or swizzles wrongly is not seen.",
  [H], [("single implementation over the common base", "struct vector_base, functions taking vector_base"), ("lane order and sequence pack", "sequence(), data(), operator []")],
  "metamorphic runtime monitor: all operand storage kinds against plain vectors, guard lanes; ASan+UBSan", EXPL + ASAN, ["function results", "operands and guards afterwards"])

P("P08", "Constructing a vector consumes components left to right and converts exactly",
  "A vector built from any accepted list of scalars, vectors, swizzles, views and matrices holds the components' lanes in order, each converted as static_cast would, ignoring surplus lanes of the last component only; a single scalar fills every lane. Conversions, assignments and copies between kinds and element types preserve lanes the same way, and constructions whose components are too few or leave a whole component unused do not compile.",
  ["inputs", "programs"], "every component partition, component kind and element type pair; every value representable in the target type",
  "The space of component lists is combinatorial; the tests list about thirty.",
  [H], [("variadic constructors", "basic_vector/view_vector constructors, detail::tuple flattening"), ("converting constructors and assignment", "basic_vector<T,N> converting members")],
  "runtime differential monitor over generated constructor calls, acceptance probes; ASan+UBSan", EXPL + ASAN, ["constructed lanes"])

P("P09", "Comparison and logical functions are exact in every lane",
  "lessThan, lessThanEqual, greaterThan, greaterThanEqual, equal and notEqual decide every lane exactly as the mathematical comparison of the two values, and == and != as C++ compares two values of the lanes' types, with NaN unequal and unordered; any, all, none, compNot, compAnd and compOr follow their truth tables; == is true exactly when all lanes are equal and != is its negation.",
  ["inputs"], "all values of all element types including 64-bit integers beyond 2^53, NaN, infinities and signed zeros; mixed operand kinds",
  "Tests compare small numbers which any implementation through a narrower type would still get right.",
  [H], [("relational functions", "namespace functions: lessThan ... notEqual"), ("equality operators", "operator == templates"), ("boolean reductions", "any, all, none")],
  "runtime differential monitor, exact; ASan+UBSan", EXPL + ASAN, ["boolean results"])

P("P10", "Rounding functions give the exact rounded value in every lane",
  "floor, ceil, trunc, round, roundEven, fract, modf, abs and sign give in every lane the exactly rounded or split value of that lane for every finite input, however large, small or close to a half, keep infinities where that is defined, and propagate NaN (whose sign() is left open). ",
  ["inputs"], "every float and double, with emphasis on halves and their neighbours, powers of two, huge, subnormal, signed zero, infinite and NaN inputs",
  "Off-by-one-ulp inputs and values beyond integer range are where rounding implementations fail, and the tests use a handful of ordinary ones.",
  [H], [("rounding functions", "namespace functions: floor ... modf, abs, sign"), ("scalar implementations", "namespace cxcm")],
  "runtime differential monitor against exact scalar references; UBSan (float-cast included)", EXPL + ASAN, ["function results"])

P("P11", "Selection and interpolation functions follow their definitions lane by lane",
  "min, max, clamp, mix (linear and selecting), step, smoothstep, mod and fma give in every lane their documented formula applied to the corresponding lanes, with scalar parameters applied to every lane. Selecting mix and min/max return one of their arguments unchanged.",
  ["inputs"], "every overload (vector or scalar parameters), size, element type and value in the documented domain",
  "Operand order, ties, NaN and edge parameters are not sampled by the tests.",
  [H], [("common functions", "namespace functions: min ... smoothstep")],
  "runtime differential monitor; ASan+UBSan", EXPL + ASAN + "Formulae are evaluated in long double where rounding may legitimately differ.", ["function results"])

P("P12", "Trigonometric and exponential functions are the scalar function in each lane",
  "radians, degrees, sin, cos, tan, asin, acos, atan (one and two arguments), sinh to atanh, pow, exp, exp2, log and log2 give in every lane the value of the mathematical function at that lane's argument to within floating-point accuracy, keep the lanes separate and in order, and give a result of the argument's type.",
  ["inputs"], "every function, size, floating type, and argument in the domain, special values included",
  "A swapped argument, a mixed-up lane or a constant with too few digits passes the tests' few loose comparisons.",
  [H], [("trigonometry and exponentials", "namespace functions: radians ... log2")],
  "runtime differential monitor against the C library and long double; ASan+UBSan", EXPL + ASAN + "Trusts libm.", ["function results"])

P("P13", "Square roots are accurate over the whole range of magnitudes",
  "sqrt, inversesqrt and the documented square-root helpers are within a few units in the last place of the exact value for every positive normal or subnormal argument, give the IEEE result for zero and infinity, and NaN for negative arguments.",
  ["inputs"], "every positive float and double over all binades, and the special values",
  "An iterative approximation converges for ordinary numbers and fails in a few binades; the tests sample about ten numbers.",
  [H], [("square roots", "cxcm::sqrt, cxcm::rsqrt, cxcm::fast_rsqrt; functions sqrt, inversesqrt")],
  "runtime accuracy monitor over every binade against correctly rounded references; UBSan", EXPL, ["function results, runtime and constant evaluated"])

P("P14", "Bit-level functions round-trip and match the representation",
  "floatBitsToInt, floatBitsToUint, their double and inverse counterparts, byteswap, frexp, ldexp, isnan and isinf act on the exact representation of every lane: conversions to bits and back are lossless, and frexp and ldexp are exact inverses of each other. ",
  ["inputs"], "every bit pattern, every exponent, all sizes and element types",
  "Tests try two or three normal numbers; NaN payloads, subnormals and extreme exponents are not touched.",
  [H], [("bit functions", "namespace functions: floatBitsToInt ... ldexp, isnan, isinf")],
  "runtime round-trip and differential monitor over bit patterns; ASan+UBSan", EXPL + ASAN, ["function results"])

P("P15", "Geometric products and lengths match their mathematical definition",
  "dot, cross, length, distance, normalize and the other products of two vectors equal the defining sum or quotient over the lanes, exactly when every intermediate value is exactly representable and within rounding error otherwise; dot and distance are symmetric, cross is antisymmetric and normalize gives unit length.",
  ["inputs"], "all sizes, element types and operand kinds; all values whose intermediates are finite",
  "Tests check three or four triples, some of them symmetric enough to hide swapped lanes.",
  [H], [("geometric functions", "namespace functions: length, distance, dot, cross, normalize")],
  "runtime differential monitor, exact on exactly representable inputs, error-bounded otherwise; ASan+UBSan", EXPL + ASAN, ["function results"])

P("P16", "Reflection, refraction and facing follow their geometric definitions",
  "faceforward, reflect and refract return the vectors their documented formulae define: reflection keeps length and flips the component along the normal, refraction obeys Snell's law and gives zero under total internal reflection, and facing returns the normal or its exact negative by the sign of the dot product.",
  ["inputs"], "all sizes, floating types, incident and normal vectors, refraction ratios on both sides of the critical angle",
  "The branches depend on continuous quantities; tests look at a couple of directions.",
  [H], [("geometric functions", "namespace functions: faceforward, reflect, refract")],
  "runtime differential monitor with physical invariants; ASan+UBSan", EXPL + ASAN, ["function results"])

P("P17", "A matrix holds its columns exactly as constructed, accessed and resized",
  "A matrix built from any accepted list of scalars, vectors, columns, pointers or another matrix holds column by column exactly those values; resizing keeps the common block and completes a square result with the identity; elements, columns, rows, size queries, iteration, raw data and tuple access all show the same values, and writing through any of them changes only the named elements.",
  ["inputs", "programs"], "all nine shapes, both element types, every construction form and component partition, every access path",
  "Each of the nine shapes has its own constructor paths; the tests build few of them and read them through one path.",
  [H], [("matrix class", "struct basic_matrix"), ("construction from components", "basic_matrix constructors, detail::tuple flattening")],
  "runtime differential monitor against a plain column-major array; ASan+UBSan", EXPL + ASAN, ["elements through every access path"])

P("P18", "Matrix products follow linear algebra for every shape",
  "matrix*matrix, matrix*vector, vector*matrix, transpose, outerProduct, and the cross and diagonal matrix helpers give the elements linear algebra defines for every pair of compatible shapes, exactly when the intermediates are exactly representable and within rounding error otherwise. ",
  ["inputs"], "all compatible shape triples, both element types, vector operands of every kind, every value with finite intermediates",
  "Transposed indices only show for non-symmetric, non-square operands, of which the tests have few.",
  [H], [("products", "operator * for basic_matrix and vector_base"), ("transposition", "functions::transpose, outerProduct")],
  "runtime differential monitor against a triple-loop model, exact on integers; ASan+UBSan", EXPL + ASAN, ["elements of the result"])

P("P19", "Element-wise matrix operations act on every element alike",
  "Matrix sums, differences, scalar arithmetic on either side, negation, increment, decrement, matrixCompMult and equality act on each element exactly as on scalars, return what C++ operators return, and never mix elements.",
  ["inputs"], "all nine shapes, both element types, mixed element types, every operator and operand order, special values",
  "Tests exercise one or two shapes per operator.",
  [H], [("matrix operators", "operator +,-,*,/,++,--,== for basic_matrix"), ("element-wise functions", "functions::matrixCompMult")],
  "runtime differential monitor, bit exact; ASan+UBSan", EXPL + ASAN, ["elements of the result, operands afterwards"])

P("P20", "Determinant and inverse are consistent with each other and with products",
  "For every square matrix the determinant equals the signed sum over permutations, exactly for small integer entries and within rounding error otherwise; it is multiplicative and invariant under transposition. The inverse of a well-conditioned matrix multiplied by it on either side gives the identity to within rounding error.",
  ["inputs"], "all square shapes, both element types, random, permuted, triangular and scaled matrices",
  "One wrong sign or cofactor out of dozens in the 4x4 case only shows with particular entries non-zero.",
  [H], [("determinant", "functions::determinant"), ("inverse", "functions::inverse")],
  "runtime differential monitor against an exact integer model and algebraic identities; ASan+UBSan", EXPL + ASAN, ["results"])

P("P21", "A view reads and writes exactly the memory it wraps",
  "A view made from a pointer, an offset or another vector shows the wrapped elements' current values and writes through to exactly those elements and nothing outside; resetting it moves it to other memory without touching either; copies of a view refer to the same memory, while copies of a view-backed vector own separate memory. Constant views allow no writes.",
  ["inputs", "programs", "histories"], "all sizes, element types, offsets, construction forms and sequences of create, copy, reset, write and swap",
  "Tests wrap one array and look at the view, not at the elements next to it.",
  [H], [("views", "basic_view, view_vector, view_wrapper"), ("reset and swap", "basic_view::reset, swap")],
  "online monitor of history steps against a memory model with guard lanes; ASan redzones", EXPL + ASAN, ["whole buffers"])

P("P22", "Iterators of vectors, swizzles and views are random-access iterators",
  "For every vector, swizzle, view and matrix, iterators from begin, cbegin, rbegin and crbegin obey the laws of random-access iterators for every in-range sequence of moves, visit the logical lanes in order, compare consistently, and dereferencing a mutable one writes exactly that lane. Standard algorithms over them give what they give over an array of the same values.",
  ["histories", "inputs", "programs"], "all sequences of iterator moves within range, all storage kinds and sizes",
  "Iterator bugs appear in particular move sequences (end of range, negative steps, reverse, mixed const), of which the tests walk one.",
  [H], [("swizzle iterators", "indexed_vector_iterator, indexed_view_iterator and const versions"), ("begin/end members", "basic_vector, basic_view, basic_matrix")],
  "online monitor of random iterator walks against a position model; ASan+UBSan, libstdc++ assertions", EXPL + ASAN, ["positions, values, written lanes"])

P("P23", "Whole-vector queries, lane shifting and apply() act on the logical lanes",
  "min, max, sum, query, apply, swizzle(), set(), shift, cyclic shift and size members see the logical lanes in logical order for every storage kind, for any function object and any shift amount including extreme ones, calling the function once per lane in order, and change nothing but what they return or set.",
  ["inputs"], "every member, storage kind, size, element type, shift amount and index list",
  "Shift amounts beyond the size, negative and extreme ones and swizzled operands are rarely in tests.",
  [H], [("members", "vector_base::apply, query, shift, swizzle, min, max, sum")],
  "runtime differential monitor with call recording; ASan+UBSan", EXPL + ASAN, ["results, calls made"])

P("P24", "Constant evaluation gives what run time gives",
  "Every constexpr operation of the library evaluated by the compiler on some inputs gives the same result as when run, bit for bit for exact operations and within the documented accuracy for square roots, under different compilers and optimisation levels.",
  ["inputs", "configurations"], "every constexpr operation, inputs including halves, huge, subnormal, signed zero, infinite and NaN values; g++ and clang++, optimised and not",
  "The two evaluation paths are separate implementations; the tests compare each to a few literals.",
  [H], [("constant evaluation branches", "namespace cxcm: std::is_constant_evaluated branches"), ("constexpr API", "the whole header")],
  "differential monitor: compiler-evaluated tables against run-time evaluation; gcc and clang, UBSan", EXPL, ["both results"])

P("P25", "Documented misuse is reported, and valid use never is",
  "Out-of-range index requests in dynamic swizzles, null pointers, resets to null, partially overlapping swaps and violated function preconditions are reported by an exception or an assertion before any memory is read or written, leave the object unchanged, and no valid use is ever reported.",
  ["inputs", "fault_sequences"], "every documented precondition, each with violating and boundary-valid arguments, every storage kind",
  "Tests have a couple of misuse cases; boundary-valid arguments next to them are not run.",
  [H], [("assertions and exceptions", "dsga_constexpr_assert, assert_or_throw sites")],
  "fault injection in forked children, exception monitors, ASan", EXPL + ASAN, ["exceptions, child exits, object state"])

P("P26", "Any history of operations agrees with a plain array model",
  "After any sequence of constructions, swizzled and viewed reads and writes, arithmetic, function calls, swaps, resets, iterations and copies over a set of vectors, views and matrices, every object holds what a model of plain arrays holds, with no undefined behaviour and no access outside the objects.",
  ["histories", "inputs"], "random histories of hundreds of operations over a shared pool of objects with aliasing views",
  "Unit tests are histories of length one or two with fresh objects.",
  [H], [("the whole vector and view API", "include/dsga.hxx")],
  "online model-based history monitor; ASan+UBSan, valgrind memcheck and -O3 in the thorough tier", EXPL + ASAN, ["the whole pool after each step"])

P("P27", "Concurrent reads and disjoint writes are free of races",
  "Threads which only read shared vectors, swizzles, views and matrices, and threads which write disjoint elements of a shared buffer through views, never race and see the values sequential execution gives. ",
  ["schedules", "histories"], "many thread schedules over shared constant objects, and adjacent disjoint views with injected delays",
  "The tests are single threaded.",
  [H], [("no hidden shared state", "include/dsga.hxx"), ("lane-granular writes through views", "basic_view, indexed_view")],
  "ThreadSanitizer over stress workloads with injected delays, and a result monitor", EXPL + "ThreadSanitizer sees only races of the schedules and accesses which happened.", ["tsan reports, checksums"])

P("P28", "Conversion to and from arrays, vectors and tuples keeps every value in place",
  "to_vector, to_array and to_matrix, tuple access, structured bindings, and tuple size and element queries agree with indexing for every vector-like object and matrix, and converting to an array and back gives an identical object. An object of one lane converts to its scalar, and on request to whatever that scalar converts to, with the value C++ gives.",
  ["inputs", "programs"], "all sizes, shapes, element types and storage kinds; all values including NaN payloads and signed zero",
  "Tests convert one or two objects.",
  [H], [("conversions", "to_vector, to_array, to_matrix"), ("tuple protocol", "get, std::tuple_size, std::tuple_element specialisations")],
  "runtime round-trip monitor, bit exact; ASan+UBSan", EXPL + ASAN, ["converted values"])

P("P29", "Objects are packed arrays of their elements",
  "Vectors and matrices are trivially copyable, standard-layout objects with no padding whose bytes are their elements in order, so that raw memory, arrays of vectors, buffers read as bytes and unions of swizzles all show the same elements, and a vector's data pointer with its sequence reaches each logical lane; a swizzle may be written exactly when it repeats no lane, and every type name (uvec3, dmat4x2, cullview2) names the type it says.",
  ["inputs", "configurations"], "all sizes, shapes and element types; g++ and clang++, with and without optimisation",
  "Tests check a few type traits and no bytes.",
  [H], [("anonymous union storage", "basic_vector, storage_wrapper"), ("data() and sequence()", "vector_base"), ("type names", "using declarations at the end of the header")],
  "runtime byte-level monitor under two compilers and optimisation levels; ASan+UBSan", EXPL + ASAN, ["bytes, offsets, traits"])

P("P30", "The STL converter writes every good facet exactly, and rejects bad files",
  "Converting a binary STL file whose size fits its facet count writes an ASCII STL file which holds exactly its good facets, in order, with coordinates which read back to the same bits and a unit normal on the side of the facet's corner order; facets with a NaN or infinite corner or without a normal are left out; a missing, truncated, overlong, empty or hostile file, or the source as target, is refused; none of it is undefined behaviour.",
  ["inputs", "fault_sequences"], "generated meshes of ordinary, extreme and degenerate facets, truncations and extensions at every byte, corrupted counts and random corruptions",
  "There is no test of the converter at all.",
  [X + "stl.hxx", X + "stl.cxx"], [("converter", "examples/stl.hxx stl_main()")],
  "round-trip monitor and mutation of files under ASan+UBSan", EXPL + ASAN, ["exit status, facets of the output file"])

P("P31", "Vector and matrix ordering helpers define a consistent order",
  "The ordering helpers order any two vectors or matrices lexicographically by lane, so that exactly one of less, equal and greater holds (none of them where a lane is a NaN), the order is transitive, weights give the lanes their priority and direction, and sorting and ordered containers work for every element type and value.",
  ["inputs"], "all pairs and triples over extreme and ordinary values, all sizes and element types",
  "There is no test of these helpers; order laws are about all triples.",
  [X + "compare.hxx"], [("comparison helpers", "examples/compare.hxx")],
  "runtime monitor of order axioms and a lexicographic model; UBSan", EXPL + ASAN, ["ordering results"])

P("P32", "Hashing is consistent with equality and depends on every lane",
  "Objects of one element type which compare equal hash equally whatever their storage kind, hashing is deterministic, changing or exchanging lanes practically always changes the hash, and hashed containers keyed by vectors behave like a set of lane tuples.",
  ["inputs", "histories"], "all sizes, element types and storage kinds, zeros of both signs, container histories",
  "There is no test of hashing.",
  [X + "hash.hxx"], [("hash specialisations", "examples/hash.hxx")],
  "runtime monitor of hash/equality consistency and container histories against std::set; UBSan", EXPL + ASAN, ["hash values, container contents"])

P("P33", "Span, slice and valarray conversions address the right elements",
  "The span, slice and valarray helpers give access to or copies of exactly the logical lanes they are asked for, in order, without reading or writing outside the source.",
  ["inputs"], "all sizes, element types, storage kinds and slice parameters",
  "There is no test of these helpers.",
  [X + "slice.hxx", X + "span_convert.hxx", X + "valarray_convert.hxx"], [("helpers", "examples/slice.hxx, span_convert.hxx, valarray_convert.hxx")],
  "runtime differential monitor; ASan+UBSan", EXPL + ASAN, ["converted values, source memory"])

P("P34", "Text output shows every element once, in order, and loses nothing",
  "Printing a vector, swizzle, view or matrix through streams or formatting shows each logical lane exactly once and in order, as the same output facility prints that scalar with the same flags, with balanced delimiters, so that parsing the text recovers the values.",
  ["inputs"], "all sizes, shapes, element types, storage kinds, stream flags and format specifications",
  "There is no test of text output.",
  [X + "ostream_output.hxx", X + "format_output.hxx"], [("output helpers", "examples/ostream_output.hxx, format_output.hxx")],
  "runtime parse-back and differential monitor; ASan+UBSan", EXPL + ASAN, ["printed text"])

P("P35", "Curve, angle, tolerance and geometry helpers satisfy their laws",
  "Bezier helpers meet the end points and agree with the Bernstein form; angle helpers agree with the exact angle within a few epsilon for every pair of directions; tolerance helpers accept exactly the values, boxes and distances their bounds allow, the bound included, for signed and floating-point lanes; closest points lie on their line or plane with a perpendicular rest, and circles through or inside a triangle are equally far from its corners or sides.",
  ["inputs"], "random control polygons of both degrees, parameters inside, outside and at the ends of the interval, vector pairs from parallel to opposite, tolerances at and next to the difference, triangles which are not thin",
  "There is no test of these helpers.",
  [X + "bezier.hxx", X + "angle.hxx", X + "tolerance.hxx", X + "basic.hxx"], [("helpers", "examples/bezier.hxx, angle.hxx, tolerance.hxx, basic.hxx")],
  "runtime differential monitor and geometric invariants; ASan+UBSan", EXPL + ASAN, ["results"])


P("P36", "Operations have no hidden effects",
  "The result of every operation on vectors, swizzles, views and matrices depends on its operands alone: the same operands give the same bits whatever was computed before, and a returned value does not change when the operands do. No operation requests heap memory, keeps state in static or thread-local storage, changes rounding mode, floating-point control or locale, or prints.",
  ["histories", "inputs"], "every operation over chains of operands which differ in one lane, evaluated in both directions and repeatedly, with every storage kind",
  "Tests evaluate each expression once with fresh operands and look only at its value; caches, allocations and shared state are invisible to them.",
  [H], [("no hidden state", "the whole header"), ("results by value", "machinery::binary_op_execute, unary_op_execute")],
  "runtime effect monitor: interposed allocator, snapshots of static and thread-local storage, floating-point control and streams around every call; determinism over operand chains",
  EXPL + "The monitors test themselves at start. Storage of the C library is not watched.", ["heap requests, static storage, control words, results"])
P("P37", "Which operands combine, and into what",
  "Whether a program is well formed, and the type it gives, follows the documented conversion rules alone. Numbers convert unasked only towards their common type, never narrower and never with bool; operators take related types and equal sizes or one lane; compound operators and assignments never narrow, resize, or write constants or swizzles with repeated lanes; vectors of several lanes never become scalars or conditions; functions take just the lane types and sizes documented.",
  ["programs"], "every operator and function over all pairs of element types, sizes and operand kinds, conversions and assignments between them, matrices of all shapes, and the type predicates and index sequences",
  "A test is a program which compiles: it cannot show that a program is rejected, nor that each of thousands of combinations is accepted with the documented type.",
  [H], [("conversion rules", "implicitly_convertible_to, promotes_to and the requires clauses of every template"), ("index sequences", "make_index_range, make_closed_index_range, make_array_sequence, make_reverse_sequence"), ("predicates", "indexable, writable_swizzle, dimensional_storage and the scalar concepts")],
  "runtime evaluation of acceptance probes (requires expressions, type traits) against an independent model of the documented conversion rules, in several compilers",
  EXPL + "Acceptance is decided by the compiler when a probe is built; the monitor judges and counts the answers. Programs on which documents and code disagree are not judged.", ["acceptance and result types"])

P("P38", "Generic code sees objects as they are",
  "Through a reference to vector_base, which generic functions take, every vector, swizzle, view and view_vector behaves as the object itself: the same lanes, addresses, data order, iterators, size and constness; writes land in the object and nowhere else; members, operators, compound operators, functions, conversions and constructors accept it wherever they accept a plain vector of the same lanes and give the same result; as_derived() and the results of compound operators are the object.",
  ["inputs"], "every member, operator and function of the library with operands of all storage kinds seen as themselves or as their base, in all combinations, with lanes random and at the edges of their type",
  "Tests use concrete types; the members of the base class that forward to the object are never called through it.",
  [H], [("the common base", "struct vector_base"), ("functions over it", "every template taking const vector_base<W, T, C, D> &")],
  "runtime differential monitor with guards around every object; ASan+UBSan", EXPL + ASAN, ["uses through a base"])

P("P39", "Every type name means the type it spells",
  "Each documented short name is the type its letters spell: no prefix or f for float, b, i, u, ll, ull and d for the other element types, scal, vec, view or mat for what it is, digits for lanes or columns and rows, and a leading c for a view that cannot be written through. Objects of each name hold any value of exactly that element type, occupy exactly that many elements, show and write the memory they are given, and report lengths, constants, member types, rows, columns and products to match.",
  ["inputs", "programs"], "all 120 names of vectors, views, constant views and matrices, with values that no other element type can keep",
  "Tests use a part of the names, with small values that survive a wrong element type.",
  [H], [("short names", "using bscal ... cdview4, mat2x2 ... dmat4"), ("members", "Count, Size, Writable, Mutable, value_type, ComponentCount of basic_vector, basic_view, basic_matrix")],
  "runtime monitor: every name is parsed by an independent reading of its letters and compared with what its objects hold, show, write and report; ASan+UBSan", EXPL + ASAN, ["uses of the names"])

P("P40", "The built-in math functions are the standard ones, constant or not",
  "The functions of the nested cxcm library, abs, fabs, trunc, floor, ceil, round, round_even, fract, fmod, copysign, signbit, isnan, isinf, isfinite, isnormal, fpclassify and is_negative_zero, give for every float and double what the C++ library gives, and sqrt, rsqrt and fast_rsqrt what is exact to a few units in the last place, both at run time and in constant expressions; for integers of every type they give the double or integer of the same value. The relaxed versions agree wherever values fit an integer and magnitudes are moderate.",
  ["inputs"], "hostile and random floats and doubles of every magnitude and pairs of them, tables made by the compiler from seeded inputs under several compilers and standards, and integers of ten types",
  "Tests reach these functions through vectors with a few values, and almost none of their constant expressions.",
  [H], [("the nested library", "namespace cxcm, strict and relaxed"), ("square roots", "converging_sqrt, inverse_sqrt, fast_rsqrt, dd_real")],
  "runtime comparison with the C++ library and with long double of what runs and of tables which the compiler evaluated; ASan+UBSan", EXPL, ["function values"])
