"""The listed properties. tools/gen.py turns this into properties.jsonl, MANIFEST.json and the table of DESIGN.md."""

SER = "include/obake/series.hpp"
POLY = "include/obake/polynomials/polynomial.hpp"
PM = "include/obake/polynomials/packed_monomial.hpp"
DPM = "include/obake/polynomials/d_packed_monomial.hpp"
KP = "include/obake/kpack.hpp"
PS = "include/obake/power_series/power_series.hpp"
SYM = "include/obake/symbols.hpp"

PROPS = []


def P(id, title, statement, over, qtext, why, files, mechanism, observe=(), oracle="", cost="", technique="",
      note="", state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mechanism=mechanism, observe=list(observe), oracle=oracle, cost=cost, technique=technique,
                      note=note, state=list(state)))


P("A01", "Polynomial arithmetic agrees with the ring of multivariate polynomials",
  "Adding, subtracting, negating, scaling and multiplying polynomials over any symbol sets, with any supported exponent "
  "and coefficient representation, gives exactly the polynomial that the mathematical definition gives. The result is the "
  "same for the binary, compound, in-place and aliased forms of an operation and for every combination of temporaries "
  "and named operands, and named operands keep their value.",
  ["inputs", "histories"],
  "every pair of polynomials, symbol sets, coefficient types, key types and every sequence of operations on them",
  "The tests for polynomials multiply a dozen hand-written products on two symbols; the product of random operands over "
  "different, interleaving symbol sets with cancellations is not sampled.",
  [POLY, SER, PM, DPM, SYM],
  [("multiplication algorithms and symbol merging", POLY), ("addition and subtraction of series", SER)],
  ["operator+, -, *, +=, -=, *= on polynomials"],
  oracle="a model polynomial (std::map from symbol->exponent maps to GMP rationals) evolves with the real objects; every "
         "step is compared term by term, named operands are compared again after the step",
  technique="stateful property-based testing against a reference model")

P("A02", "Multi-threaded multiplication gives the exact product",
  "The product of large polynomials, which is computed by several threads over a segmented table, is exactly the "
  "mathematical product, with no lost, duplicated or zero terms, whatever the sizes, the sparsity, the coefficient sizes, "
  "the segmentation of the operands and the thread schedule.",
  ["inputs", "schedules"],
  "operands on both sides of the multi-threading threshold, 1 to 64+ segments, any schedule of the worker threads",
  "The tests have a few fixed large products and compare them between the two implementations, both of which could be "
  "wrong; schedules are whatever the machine gives.",
  [POLY, SER],
  [("segmented parallel multiplication", POLY)], ["operator* on large polynomials"],
  oracle="schoolbook product of the model (a hash map of packed exponents in the check's own code)",
  technique="property-based testing against a reference product, with varied schedules")

P("A03", "Truncated multiplication is multiplication followed by truncation",
  "The truncated product of two polynomials, with a limit on the total degree or on the partial degree over some symbols, "
  "contains exactly the terms of the full product whose degree does not exceed the limit.",
  ["inputs", "schedules"],
  "all operands, limits of any signedness, partial-degree symbol sets that include absent symbols, small and large operands",
  "The tests compare two fixed sparse products for a handful of limits.",
  [POLY], [("degree-sorted skipping in the multiplication algorithms", POLY)], ["obake::polynomials::truncated_mul"],
  oracle="the model product filtered by degree",
  technique="property-based testing against a reference product")

P("A04", "Exponents never wrap around silently",
  "Every operation on polynomials whose exact result needs an exponent outside the range representable in the packed key "
  "raises an overflow error and leaves its operands unchanged. Every operation whose exact result is representable "
  "succeeds and is exact, up to the very edge of the range.",
  ["inputs"],
  "exponents at and around the limits for every number of symbols and every integral type",
  "The tests try single extreme exponents; which of the components overflow, in which term pair of a product, is not sampled.",
  [PM, DPM, KP, POLY],
  [("range checks before products", PM), ("range checks before products", DPM), ("packing limits", KP)],
  ["products, powers, sums over merged symbols, derivatives and integrals"],
  oracle="exact 128-bit exponent arithmetic; the representable range is computed from the documented packing limits",
  technique="boundary-directed property-based testing against an exact model")

P("A05", "Powers are repeated products, whatever was computed before",
  "Raising a polynomial to a natural power equals multiplying it with itself that many times, and is not affected by any "
  "power computed earlier in the process, by any other series. Single-term polynomials also take negative powers where "
  "the coefficient allows, and exponents that make no sense raise an invalid-argument error.",
  ["inputs", "histories"],
  "every base, exponent and every history of earlier powers of equal, similar and different bases",
  "The tests raise a few fixed bases; the process-wide cache is checked for one sequence.",
  [SER, "include/obake/math/pow.hpp"],
  [("power cache", "series_pow_from_cache in " + SER), ("single-term power", SER)], ["obake::pow"],
  oracle="repeated multiplication in the model; algebraic laws of powers; histories with closely related bases",
  technique="stateful property-based testing against repeated model multiplication")

P("A06", "Derivatives and integrals follow the rules of calculus",
  "The derivative and the integral of a polynomial with respect to any symbol, present or not, equal the term-by-term "
  "derivative and integral, also when the coefficients are polynomials themselves. Integrating a derivative-free term of "
  "exponent -1 raises an error instead of giving a wrong polynomial.",
  ["inputs"],
  "all polynomials, symbols inside and outside the symbol set, nested coefficients, signed exponents",
  "A handful of fixed expressions are tested.",
  [POLY, PM, DPM, "include/obake/math/diff.hpp", "include/obake/math/integrate.hpp"],
  [("diff and integrate algorithms", POLY)], ["obake::diff", "obake::integrate"],
  oracle="term-by-term calculus on the model; product rule; diff(integrate(p)) = p; symmetry of mixed derivatives",
  technique="property-based testing against a reference model and metamorphic relations")

P("A07", "Evaluation and substitution agree with plugging the values in",
  "Evaluating a polynomial at numbers or polynomials, or substituting numbers or polynomials for some of its symbols "
  "simultaneously, gives what replacing the symbols in every term gives. An evaluation that lacks a value for one of the "
  "symbols raises an invalid-argument error; surplus values are ignored.",
  ["inputs"],
  "all polynomials, all subsets of symbols, swapped symbols, values of several types",
  "A handful of fixed polynomials and maps are tested.",
  [SER, POLY, PM, DPM, "include/obake/math/evaluate.hpp", "include/obake/math/subs.hpp"],
  [("evaluation", SER), ("substitution", POLY)], ["obake::evaluate", "obake::subs"],
  oracle="term-by-term rational arithmetic on the model; ring homomorphism laws",
  technique="property-based testing against a reference model and metamorphic relations")

P("A08", "Degrees and degree truncations agree with the terms",
  "The total and the partial degree of a polynomial are the largest degree of any of its terms, and zero for the zero "
  "polynomial; when the coefficients themselves have a degree, it is added to that of the term. Truncating a polynomial to "
  "a total or partial degree keeps exactly the terms whose degree does not exceed the limit.",
  ["inputs"], "all polynomials, symbol subsets with foreign symbols, limits of several types below, among and above the degrees",
  "A handful of fixed polynomials and limits are tested.",
  [SER, POLY, "include/obake/math/degree.hpp", "include/obake/math/p_degree.hpp",
   "include/obake/math/truncate_degree.hpp", "include/obake/math/truncate_p_degree.hpp"],
  [("degree of a series", SER), ("truncation", POLY)], ["obake::degree, p_degree, truncate_degree, truncate_p_degree"],
  oracle="maximum over the terms of the model, filtering of the model",
  technique="property-based testing against a reference model")

P("A09", "Trimming, filtering and adding symbols preserve the value",
  "Trimming removes exactly the symbols that occur in no term and adding symbols puts unused ones in, and neither changes "
  "the mathematical value. Filtering keeps exactly the terms that satisfy the predicate, and generating polynomials from "
  "names gives the one-term polynomial for each name.",
  ["inputs"], "all polynomials, including nested ones, symbol sets, predicates",
  "A handful of fixed series are tested.",
  [SER, POLY, SYM, "include/obake/math/trim.hpp"],
  [("trim and filter", SER), ("generator creation", POLY)], ["obake::trim, filter, filtered, add_symbols, make_polynomials"],
  oracle="model equality plus minimality of the symbol set",
  technique="property-based testing against a reference model")

P("S01", "A series behaves as a map from keys to nonzero coefficients",
  "After any history of insertions, subtractions, removals, clears, segment changes, copies, moves and swaps, a series "
  "contains exactly the keys whose accumulated coefficient is nonzero, each once, with that coefficient. Lookup, "
  "iteration, size (also in bytes) and emptiness all agree with it, and incompatible keys are refused without a trace.",
  ["histories"], "every history of container operations, every segmentation, keys with colliding hashes",
  "The tests run short fixed sequences per method.",
  [SER], [("term insertion", SER), ("segmented tables", SER)],
  ["add_term, find, iteration, size, clear, set_n_segments, set_symbol_set"],
  oracle="a std::map updated alongside; every observable compared after every step",
  technique="stateful model-based testing")

P("S02", "Equality of series is equality of mathematical objects",
  "Two series compare equal exactly when they denote the same mathematical object with equal tags, regardless of symbol "
  "order of creation, unused symbols, segmentation, insertion order and coefficient type, in both operand orders; the same "
  "goes for comparing a series with a number.",
  ["inputs"], "all pairs of series over all symbol sets and mixtures of types",
  "The tests compare a few pairs.",
  [SER], [("series comparison", SER)], ["operator==, operator!="],
  oracle="equality of the models",
  technique="property-based testing against a reference model")

P("S03", "Series have value semantics under aliasing, moves and swaps",
  "No operation on a series changes any other live object: operands that coincide, copies, moved-from objects given a new "
  "value, self assignment and exchanges all behave as independent values.",
  ["histories"], "every history over several series in which operands alias",
  "The tests alias operands in single fixed calls.",
  [SER, POLY], [("copy, move and in-place paths", SER)], ["all arithmetic, copy and move operations"],
  oracle="one model per live object, all compared after every step; runs under address sanitizer in the thorough tier",
  technique="stateful model-based testing")

P("S05", "An operation that fails half-way loses nothing but its result",
  "When an operation of a coefficient throws or memory runs out anywhere within an operation on series, that error reaches "
  "the caller, const operands keep their value, and nothing is leaked. The target of an in-place operation and operands given "
  "up as temporaries are left as proper series or moved-from, usable and assignable, and the same operation later succeeds.",
  ["inputs", "fault_sequences"],
  "every operation, all operands, every point of failure (operation of a coefficient or allocation), serial and parallel algorithms",
  "The tests contain no failing coefficient and no failing allocation; the catch blocks are excluded from coverage.",
  [SER, POLY, PS],
  [("insertion of terms and its recovery", SER), ("clearing of operands whose coefficients were taken", SER),
   ("recovery in products", POLY), ("cache of powers", SER)],
  ["operators, assignment, add_term, pow, negate, filter, trim, subs, diff, truncate_degree, set_truncation"],
  oracle="every operation is run once to count its points of failure and then once per point with the failure injected; models of "
         "the operands, a count of live coefficients, and the result of the operation when it is repeated",
  technique="property-based testing with fault injection at every point of generated operations")

P("S04", "Conversions and mixed-type arithmetic convert term by term",
  "Converting a series to another coefficient type, and adding, subtracting or multiplying series (or a series and a number) "
  "of different coefficient types, gives the result of converting every coefficient first and dropping those that become zero. "
  "Converting a series to or from a number is exact when it is a single constant and an error otherwise.",
  ["inputs"], "all series, symbol sets and pairs of coefficient types, values that vanish in the target type",
  "The tests convert a few series; one of the symbol-merging conversions had its zero check inverted (fixed).",
  [SER], [("converting constructors, conversion operator and symbol merging with type conversion", SER)],
  ["converting constructors and assignment, mixed operators, conversion operator"],
  oracle="the model converted term by term",
  technique="property-based testing against a reference model")

P("S08", "Symbol sets merge, intersect, print and persist as mathematical sets",
  "Merging two symbol sets gives their union together with insertion maps that turn each of the two into it, and "
  "intersecting a set or a map with a reference set gives the exact positions of the common symbols. Printing lists the "
  "symbols in order, equal sets share one flyweight and hash equally, and serialization restores the same set.",
  ["inputs"], "all pairs of symbol sets, including empty, equal, nested, disjoint and interleaved ones and odd names",
  "The tests merge and intersect a few fixed sets.",
  [SYM, "src/symbols.cpp"], [("merge and intersection", "src/symbols.cpp"), ("flyweight and hash", SYM)],
  ["symbol_set, symbol_idx_set, insertion maps, flyweights"],
  oracle="std::set algebra in the check; the insertion maps are replayed",
  technique="property-based testing against a reference model")

P("K01", "Kronecker packing is an exact bijection",
  "Packing a vector of integers within the published limits gives its Kronecker code and unpacking gives the vector back; "
  "every code in the published range unpacks to a vector within the limits and packs back to itself. Values, sizes and "
  "codes outside the limits are refused with an error instead of producing a wrong code.",
  ["inputs"], "all four integral types, all sizes up to the maximum, values and codes over the whole range",
  "The tests pack random vectors well inside the limits; the edges of the ranges and the code of each vector are not fixed.",
  [KP], [("packer and unpacker", KP), ("limits and deltas", KP)], ["k_packer, k_unpacker"],
  oracle="weighted sums and divisions in 128-bit or GMP arithmetic",
  technique="property-based testing against exact integer arithmetic, with round trips")

P("K02", "Packed monomials behave as exponent vectors",
  "A packed monomial built from a list of exponents behaves as that vector of exponents in construction, comparison, "
  "hashing, product, overflow checks, degrees, powers, evaluation, substitution, symbol merging, trimming, "
  "differentiation, integration and printing. Operations whose result does not fit raise the documented errors.",
  ["inputs"], "all sizes up to the maximum, exponents up to the limits, all value types",
  "The tests use a few small monomials per function.",
  [PM], [("packed monomial primitives", PM)], ["all key_* and monomial_* functions on packed_monomial"],
  oracle="plain vectors of 128-bit exponents, with a decoder of its own",
  technique="property-based testing against a reference model")

P("K03", "Dynamic packed monomials behave as exponent vectors",
  "A dynamic packed monomial of any pack size and any number of symbols behaves as its vector of exponents in "
  "construction, comparison, hashing, product, overflow checks, degrees, powers, evaluation, substitution, symbol merging, "
  "trimming, differentiation, integration and printing. Operations whose result does not fit raise the documented errors.",
  ["inputs"], "all pack sizes and numbers of symbols around their multiples, exponents up to the limits, all value types",
  "The tests use a few small monomials per function.",
  [DPM], [("dynamic packed monomial primitives", DPM)], ["all key_* and monomial_* functions on d_packed_monomial"],
  oracle="plain vectors of 128-bit exponents, with a decoder of its own",
  technique="property-based testing against a reference model")

P("K04", "A user's own monomial type makes polynomials that behave as polynomials",
  "Over any monomial type that provides the documented operations, polynomial arithmetic (serial, parallel, truncated), "
  "powers, calculus, substitution, degrees and symbol handling give the results of exponent vectors, whatever the quality of "
  "its hash, whether or not the hash is declared homomorphic, and whatever size it claims. A range check that the type "
  "provides is consulted before a product, and a product is refused exactly when it says no. Keys are only handed back to "
  "the type with the symbol set they belong to.",
  ["inputs", "configurations"], "all polynomials over types with good, poor and constant hashes, with and without range check, "
  "with key sizes that select every parallel algorithm",
  "The tests use the two monomial types of the library, whose hashes and keys are of one kind.",
  [POLY, SER, "include/obake/polynomials/monomial_mul.hpp", "include/obake/polynomials/monomial_homomorphic_hash.hpp",
   "include/obake/polynomials/monomial_range_overflow_check.hpp", "include/obake/key/key_merge_symbols.hpp",
   "include/obake/key/key_degree.hpp", "include/obake/key/key_evaluate.hpp", "include/obake/key/key_trim.hpp"],
  [("choice of the multiplication algorithm", POLY), ("customisation points of keys and monomials", "include/obake/polynomials")],
  ["operators, truncated_mul, pow, diff, integrate, subs, evaluate, degree, trim, filter over a user's key type"],
  oracle="the map from exponent vectors to coefficients; keys that notice a wrong symbol set",
  technique="property-based testing against a reference model with user-defined monomial types")

P("U01", "Numbers are printed with their exact digits and published limits are exact",
  "Every integer of every width is converted to a string and inserted in streams, plain and TeX, as its exact decimal "
  "digits, and other coefficients as the stream operator prints them (fractions in TeX). The published minimum, maximum and "
  "digit counts of all the integral types, including the 128-bit ones, are exact.",
  ["inputs"], "all values of all the integral types and coefficient types, any earlier stream content",
  "The tests compare a few values and the extremes.",
  ["include/obake/detail/to_string.hpp", "src/detail/to_string.cpp", "include/obake/detail/limits.hpp",
   "include/obake/cf/cf_stream_insert.hpp", "include/obake/cf/cf_tex_stream_insert.hpp", "src/cf/cf_stream_insert.cpp",
   "src/cf/cf_tex_stream_insert.cpp"],
  [("128-bit printing", "src/detail/to_string.cpp"), ("limits", "include/obake/detail/limits.hpp")],
  ["to_string, cf_stream_insert, cf_tex_stream_insert, limits"],
  oracle="decimal conversion by GMP",
  technique="differential property-based testing against GMP")

P("U02", "The random generator is the published xoroshiro128+",
  "For every seed and every sequence of requests of any widths the generator returns exactly the values of the published "
  "xoroshiro128+ algorithm, and its state can be carried on from any point. It satisfies the requirements of a uniform "
  "random bit generator over its whole range.",
  ["inputs", "histories"], "all seeds and sequences of draws of 8 to 128 bits",
  "The tests only try that two generators with equal seeds agree and that bits vary.",
  ["include/obake/detail/xoroshiro128_plus.hpp"], [("generator", "include/obake/detail/xoroshiro128_plus.hpp")],
  ["random, operator()"], oracle="an independent transcription of the published algorithm",
  technique="model-based property testing")

P("U03", "Checked integer addition and subtraction are exact or refused",
  "Adding or subtracting two integers of the same type with the checked functions returns the exact result when it is "
  "representable and raises an overflow error otherwise, for every type and with and without the compiler's help.",
  ["inputs"], "all operands of all the integral types, both implementations",
  "The tests try the extreme values.",
  ["include/obake/detail/safe_integral_arith.hpp"],
  [("both implementations", "include/obake/detail/safe_integral_arith.hpp")], ["safe_int_add, safe_int_sub"],
  oracle="GMP arithmetic; 8-bit types exhaustively",
  technique="differential property-based testing against GMP, exhaustive for 8-bit types")

P("U04", "Safe conversions preserve the value or are refused",
  "A safe conversion between integers, big integers and rationals succeeds exactly when the value is representable in the "
  "target, in which case the target has that value, and leaves the target untouched otherwise. A safe cast returns the "
  "same value or raises the safe-cast error, and types with their own conversion are converted with it.",
  ["inputs"], "all ordered pairs of types, all values",
  "The tests try a few values on some pairs.",
  ["include/obake/math/safe_convert.hpp", "include/obake/math/safe_cast.hpp"],
  [("integral conversions", "include/obake/math/safe_convert.hpp"), ("cast", "include/obake/math/safe_cast.hpp")],
  ["safe_convert, safe_cast"], oracle="GMP value comparison against the limits of the target",
  technique="differential property-based testing against GMP")

P("U05", "The mathematical functions are exact on plain numbers",
  "On plain numbers, powers, negation, zero tests, multiply-add, sizes and hashes give the mathematical value in the "
  "documented type. Numbers are constants: their derivative is zero, and evaluation, substitution and trimming return them "
  "unchanged.",
  ["inputs"], "all numbers of all the types, with aliased operands",
  "The tests use a few values per function.",
  ["include/obake/math/pow.hpp", "include/obake/math/negate.hpp", "include/obake/math/is_zero.hpp",
   "include/obake/math/fma3.hpp", "include/obake/math/diff.hpp", "include/obake/math/evaluate.hpp",
   "include/obake/math/subs.hpp", "include/obake/math/trim.hpp", "include/obake/byte_size.hpp", "include/obake/hash.hpp"],
  [("default implementations", "include/obake/math/")], ["pow, negate, is_zero, fma3, diff, evaluate, subs, trim, byte_size, hash"],
  oracle="the standard library and GMP on the operands converted to the documented type",
  technique="differential property-based testing")

P("U06", "User-defined types get the customisation they provide, with their own arguments",
  "For every customisation point of the library the external customisation is preferred to the function found by "
  "argument-dependent lookup, which is preferred to the internal one, and the call is available exactly when one of them "
  "fits. The chosen implementation receives the caller's own arguments in the caller's value categories, and its result "
  "is handed back.",
  ["inputs"], "all customisation points, all sets of implementations, value categories and return types",
  "The tests try each customisation point with single implementations and check the result only.",
  ["include/obake/math/", "include/obake/key/", "include/obake/cf/", "include/obake/polynomials/", "include/obake/hash.hpp",
   "include/obake/byte_size.hpp"],
  [("dispatch of customisation points", "include/obake/math/degree.hpp and its siblings")],
  ["every function object that users can customise"],
  oracle="a table of rules; customisations record which was called, with which objects, in which value categories",
  technique="property-based testing over generated sets of customisations (type-level enumeration, random values)")

P("U07", "Iterators and ranges are classified and accessed correctly",
  "An iterator or a range is classified in a category exactly when it meets all the documented requirements of that category. "
  "begin and end reach exactly the elements of every kind of range, and differences that an iterator cannot represent are "
  "refused with an overflow error.",
  ["inputs"], "iterator types lacking any one requirement, all kinds of ranges, all sizes against all difference types",
  "The tests classify a few hand-written iterators.",
  ["include/obake/type_traits.hpp", "include/obake/ranges.hpp", "include/obake/detail/it_diff_check.hpp"],
  [("iterator traits", "include/obake/type_traits.hpp"), ("range access", "include/obake/ranges.hpp")],
  ["is_*_iterator, is_*_range, begin, end"],
  oracle="the list of requirements each generated type lacks",
  technique="property-based testing over generated types and ranges")

P("U08", "Type traits and concepts agree with what the language accepts",
  "Every trait and concept of the library holds for a type, or a pair of types, exactly when the corresponding expression "
  "is valid and has the documented type, for values, references and qualified types alike. The unsigned counterpart of an "
  "integer type has its size and preserves values.",
  ["inputs"], "all pairs of some 40 types and 90 single types, qualified and not",
  "The tests try a few types per trait.",
  ["include/obake/type_traits.hpp"], [("traits and concepts", "include/obake/type_traits.hpp")],
  ["all traits and concepts"], oracle="requires-expressions and standard traits written out in the check",
  technique="property-based testing over a table of types and pairs of types")

P("U10", "Keys, coefficients, tags and series: what is accepted and which operations exist",
  "A type is accepted as key, coefficient, series tag or part of a power series exactly when it has every operation which the "
  "requirements list, and the queries for series, polynomials, power series, ranks, packable integers and monomials recognise "
  "exactly those types. Sums, products, quotients, powers, comparisons, assignments and conversions between numbers and "
  "series exist for operands of any value category exactly when the rules on rank, key, tag and coefficients allow them, with "
  "the type of the result given by the same rules, and are refused at overload resolution otherwise.",
  ["inputs"], "types that lack any one, or two, of the requirements; all pairs of 21 operands of ranks 0 to 2",
  "The tests try some pairs of types for each operation and some types that lack a requirement.",
  ["include/obake/series.hpp", "include/obake/polynomials/polynomial.hpp", "include/obake/power_series/power_series.hpp",
   "include/obake/polynomials/packed_monomial.hpp", "include/obake/polynomials/d_packed_monomial.hpp"],
  [("requirements and selection of the operations", "include/obake/series.hpp")],
  ["concepts, type traits and operators"],
  oracle="the requirements each generated type lacks, and the rules on ranks written again by recursion on the coefficients",
  technique="property-based testing over generated types and pairs of operand types")

P("U11", "Functions of series: what exists for which keys and coefficients, and its result",
  "Derivatives, integrals, substitution, evaluation, degrees, truncation, truncated products, trimming, filters, added symbols, "
  "sizes and output exist for a series, by constant, value and reference, exactly when its keys and coefficients have the "
  "operations which they need, and so do operators, conversions and assignments with numbers and other series. The type of the result follows from those of the parts, and values that cannot be substituted, "
  "parts that cannot be evaluated and parts that cannot be trimmed are left as they are.",
  ["inputs"], "15 series types with 8 types of values; types of keys and coefficients that lack any one, or two, of the operations",
  "The tests try some functions on a few types of coefficients; combinations that lack an operation are not sampled.",
  ["include/obake/series.hpp", "include/obake/polynomials/polynomial.hpp", "include/obake/power_series/power_series.hpp"],
  [("selection of the algorithms", "include/obake/polynomials/polynomial.hpp"), ("selection of the algorithms", "include/obake/series.hpp")],
  ["obake::diff, integrate, subs, evaluate, degree, p_degree, trim, truncate_degree, truncate_p_degree, filter, add_symbols"],
  oracle="the operations each generated type lacks, and the rules for the result written again by recursion on the coefficients",
  technique="property-based testing over generated types")

P("C01", "Const objects and powers can be used from threads and inside parallel tasks",
  "Several threads, or several tasks of a parallel algorithm, may at the same time compute powers, products, sums, "
  "substitutions and conversions of the same const series and create and merge equal or different symbol sets. Every one of "
  "these computations completes, with the value the same computation has when it runs alone, and without a data race.",
  ["inputs", "schedules"],
  "all operands and exponents that share entries of the process-wide cache of powers, all mixes of operations, any "
  "schedule of the threads and any legal choice of the task a waiting thread runs",
  "The tests use series from one thread at a time; the process-wide cache of powers and the flyweight store of symbol "
  "sets are only ever seen with one user.",
  [SER, "src/series.cpp", "src/symbols.cpp", POLY],
  [("cache of powers shared by all series of a type", SER), ("flyweight store of symbol sets", SYM)],
  ["obake::pow, operators, subs, diff on shared const series", "symbol_set_fw"],
  oracle="the values of the same expressions computed by one thread beforehand; ThreadSanitizer for races; a time limit for "
         "completion. Tasks run under a stand-in for oneTBB whose waiting threads run other pending tasks (as oneTBB's may), "
         "picked by the generator",
  technique="property-based testing over schedules, under ThreadSanitizer and a task-stealing scheduler")

P("C02", "Parallel products are race-free and do not depend on how the work is divided",
  "The parallel algorithms for products and truncated products give the same exact polynomial, or the same overflow "
  "error, however their index ranges are divided into tasks and in whatever order or concurrency the tasks run. No two "
  "tasks access the same memory without synchronisation when one of them writes.",
  ["inputs", "schedules"],
  "operands that take each of the parallel algorithms, every division of their ranges into tasks, every order of the tasks",
  "With the real scheduler the division is decided by timing and small ranges run on one thread, so a race or a wrong "
  "reduction rarely shows; a test sees one division per run.",
  [POLY, PM, DPM, SER],
  [("sparse and dense parallel functors, parallel degree and overflow reductions", POLY)],
  ["operator*, truncated_mul on polynomials that take the parallel path"],
  oracle="the model product, and ThreadSanitizer; a stand-in for oneTBB divides every range at generated points and gives "
         "each task its own thread, or runs the tasks serially in a generated order",
  technique="property-based testing over schedules against a reference product, under ThreadSanitizer")

P("S06", "The text of a series denotes the series",
  "Reading the plain or TeX text of a series as an arithmetic expression gives the series back: no sign, factor, exponent, "
  "bracket or term is lost or invented, for all coefficient and key types and for nested series of any rank. Beyond the "
  "display limit of 50 terms the text holds the first 50 terms in iteration order followed by an ellipsis.",
  ["inputs"],
  "all series up to rank 3, coefficients 0, 1, -1, fractions and series, positive, negative, zero and huge exponents, symbol names",
  "The tests compare the text of a dozen fixed terms; nested series with bracketed coefficients inside unitary keys, and the "
  "exact cut at the limit, are not sampled.",
  [SER, "src/series.cpp", PM, DPM, "include/obake/cf/cf_stream_insert.hpp", "include/obake/cf/cf_tex_stream_insert.hpp"],
  [("plain and TeX streaming of series", SER), ("text of one term", "src/series.cpp"), ("text of monomials", PM)],
  ["<<, tex_stream_insert, cf_stream_insert, key_stream_insert and their TeX forms"],
  oracle="a recursive-descent reader of the text evaluates it to a model polynomial, compared with the generated one",
  technique="property-based testing of a round trip through an independent reader")

P("S07", "Serialization restores an equal series or fails cleanly",
  "A series written to a binary or text archive and read back is equal to the original, including symbol set, tag and "
  "truncation, whatever the target held before and with any segmentation, alone or nested in containers and in other series. "
  "Reading a truncated archive raises an exception and leaves objects that can be used, assigned and destroyed.",
  ["inputs", "crash_points"],
  "all series, coefficient and key types; every cut of the archive; previous contents of the target",
  "The tests serialize a few fixed series into fresh targets and never meet an archive that ends early.",
  [SER, PS, PM, DPM, SYM, "include/obake/s11n.hpp"],
  [("save and load of series", SER), ("save and load of keys", PM), ("save and load of truncations", PS)],
  ["boost::serialization of series, keys, symbol sets, truncations"],
  oracle="equality with the original and with the model; reading a prefix of the archive",
  technique="property-based testing of round trips with injected truncation of the stream")

P("W01", "Power series operations give the truncation of the exact result",
  "Every sum, difference, product, power, derivative, integral and substitution of power series, and every operation with "
  "scalars, gives exactly the terms of the exact result that the truncation of the operands keeps, and the result carries "
  "that truncation. An operand without truncation adopts the other's. Operands whose truncation policies or levels differ "
  "are refused with invalid_argument and keep their value.",
  ["inputs", "histories"],
  "all power series (also over a user's monomials), truncation degrees (negative, zero, on symbols the series lacks), symbol sets, "
  "coefficient and key types, and histories of operations",
  "The tests add and multiply a few generators with one truncation; truncations interact with merging of symbol sets, "
  "cancellation, aliasing, the power cache and every arithmetic path, which is a product of cases no test enumerates.",
  [PS, POLY, SER],
  [("truncated sums, products, powers and calculus", PS), ("truncated multiplication", POLY), ("power cache", SER)],
  ["operators, pow, diff, integrate, subs on p_series", "get_truncation"],
  oracle="a model polynomial with a truncation: each operation is done exactly on the model and filtered, and terms and "
         "truncation of the real result are compared after every step",
  technique="stateful property-based testing against a reference model")

P("W02", "Truncation policies are set, kept, compared and shown faithfully",
  "set_truncation removes exactly the terms whose (partial) degree exceeds the given degree and records it; truncate applies "
  "the recorded one, unset_truncation only forgets it, and degrees that cannot be represented are refused without effect. "
  "Generators carry the requested symbol set and truncation, two power series are equal exactly when terms and truncation "
  "are, and both stream formats show the truncation.",
  ["inputs", "histories"],
  "all power series, degrees of every integral type inside and outside the representable range, symbol sets, generator names",
  "The tests set one or two truncations on one generator; they do not vary the degree type, negative degrees, symbols the "
  "series lacks, or compare series that differ in the truncation alone.",
  [PS],
  [("setting, getting and applying truncations; generators; streams", PS)],
  ["set_truncation, unset_truncation, get_truncation, truncate, make_p_series, make_p_series_t, make_p_series_p", "operator==, <<"],
  oracle="a model polynomial with a truncation; expected text for the streams",
  technique="stateful property-based testing against a reference model")

P("C03", "Locks and process-wide stores give exclusion and one object per value",
  "Critical sections guarded by the locks of a flag array never overlap and see each other's writes; the lock is free again "
  "however the section is left, and setting one flag affects no other. From any number of threads, a type index is always "
  "mapped to the same single flyweight object, and the concurrency reported is positive and constant.",
  ["inputs", "schedules"],
  "all assignments of critical sections to locks and threads, ways of leaving them, sizes of the array, sets of types, schedules",
  "The tests create one guard on one thread; exclusion and visibility only show under contention.",
  ["include/obake/detail/atomic_lock_guard.hpp", "include/obake/detail/atomic_flag_array.hpp", "include/obake/detail/fw_utils.hpp",
   "include/obake/detail/hc.hpp", "src/detail/atomic_flag_array.cpp", "src/detail/fw_utils.cpp", "src/detail/hc.cpp"],
  [("spin lock on an atomic flag", "include/obake/detail/atomic_lock_guard.hpp"),
   ("array of flags", "include/obake/detail/atomic_flag_array.hpp"), ("flyweight store of type indices", "include/obake/detail/fw_utils.hpp")],
  ["atomic_lock_guard, atomic_flag_array, ti_fw, hc()"],
  oracle="unprotected accounts that must hold the sums of the generated sections, an array of booleans, ThreadSanitizer",
  technique="property-based testing over schedules, under ThreadSanitizer")

P("U09", "Errors carry message, type and trace; helpers visit each element once",
  "An error raised through the library has exactly the requested type and arguments, and its text holds the unchanged "
  "message, the name of the type and, when traces are on, one numbered line per frame of the call chain, less those "
  "skipped. The tuple, array and forwarding helpers visit every element exactly once, in order, with its value category.",
  ["inputs"],
  "messages with any characters, exception types with any arguments, call depths, threads; tuples and arrays of any elements",
  "The tests throw a few fixed messages; multi-line and formatted messages, deep chains, other threads, move-only arguments "
  "and elements that throw are not sampled.",
  ["include/obake/exceptions.hpp", "include/obake/stack_trace.hpp", "src/stack_trace.cpp", "src/libbacktrace_stack_trace.cpp",
   "src/boost_stack_trace.cpp", "include/obake/detail/tuple_for_each.hpp", "include/obake/detail/make_array.hpp",
   "include/obake/detail/fcast.hpp", "include/obake/detail/ignore.hpp"],
  [("decoration of exceptions", "include/obake/exceptions.hpp"), ("stack traces", "src/stack_trace.cpp"),
   ("tuple and array helpers", "include/obake/detail/tuple_for_each.hpp")],
  ["obake_throw, stack_trace, tuple_for_each, make_array, fcast, ignore"],
  oracle="the generated message, type and depth; tokens that record their copies, moves and visits",
  technique="property-based testing against the generated arguments")
