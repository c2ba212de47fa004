#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (run by hand after changing them)."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IN, HIST, SCHED, CONF = "inputs", "histories", "schedules", "configurations"
B = "crates/bits/src/"
I = "crates/ints/src/"
T = "crates/traits/src/"
K = "crates/compounds/src/"
R = "crates/reals/src/"
S = "crates/static-iter/src/"
UT = "crates/utils/src/"

P = []


def prop(id, title, statement, over, text, why, files, mech, observe, tech, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, tech=tech, note=note, state=state))


DIFF = "runtime monitoring: boundary-biased generated executions of the real code, judged online by an independent reference model, sampled events re-derived offline in Python, in overflow-checked and release builds"
HISTO = "runtime monitoring: random operation histories on the real code against an online reference model"

prop("C01", "BigInt addition, subtraction, multiplication and negation are exact",
     "For every pair of BigInt values of any size and sign, +, - and * (by value, by reference, in place, and with any primitive integer on the right) give exactly the mathematical result, and negation and absolute value are exact. Operands passed by reference are left unchanged, and the zero/one/sign predicates describe the value.",
     [IN], "all pairs of integers, all operand forms, both overflow-checked and release builds",
     "unit tests use a dozen values of one word; carries, borrows and sign combinations across words have unboundedly many shapes",
     [I + "big_int.rs", B + "algos/element/add.rs", B + "algos/element/sub.rs", B + "algos/element/mul.rs"],
     [("sign/magnitude addition and subtraction", I + "big_int.rs impl_op!(add), impl_op!(sub)"),
      ("word-wise carry and borrow propagation", B + "algos/element/add.rs, sub.rs, mul.rs"),
      ("canonical small/large storage", I + "big_int.rs new_slice")],
     ["binary rendering of results", "is_zero/is_one/is_negative/is_positive"], DIFF,
     "sampled, not exhaustive, above the boundary grid")
prop("C02", "BigInt division and remainder satisfy the truncated division identity",
     "For every a and every non-zero b, a/b is the quotient truncated toward zero and a%b the matching remainder: a == (a/b)*b + a%b, |a%b| < |b|, and a%b is zero or has the sign of a. Dividing by zero panics in every operand form and leaves the operands intact.",
     [IN], "all pairs of integers of any size, all operand forms, all primitive divisors",
     "tests divide single digits; long division goes wrong for particular operand lengths and bit patterns only",
     [I + "big_int.rs", B + "algos/bitwise/div.rs"],
     [("bit-by-bit long division", B + "algos/bitwise/div.rs div_long"), ("sign of quotient and remainder", I + "big_int.rs impl_op!(div), impl_op!(rem)")],
     ["binary rendering of quotient and remainder", "panics"], DIFF, "divisors and dividends up to ~1500 bits")
prop("C03", "BigInt comparison is the order of the integers, and each number has one form",
     "Comparing any two BigInt values with ==, <, <=, >, >=, cmp, max, min or sorting, and comparing a BigInt with any primitive integer, agrees with the order of the integers. A number reached by different computations is always equal to itself and stored the same way; in particular there is exactly one zero, neither negative nor different from 0.",
     [IN, HIST], "all pairs of integers, all primitive types, all ways of computing the same number",
     "tests compare values in -1..1; ordering bugs hide behind equal lengths, signs and shared high words",
     [I + "big_int.rs", I + "big_int/macros.rs"],
     [("ordering by sign, length, words", I + "big_int.rs impl Ord"), ("comparison with primitives", I + "big_int/macros.rs"), ("trimming of leading zero words", I + "big_int.rs new_slice")],
     ["comparison operators", "is_inline/is_interned", "sort results"], DIFF, "sampled pairs, biased to near-equal values")
prop("C04", "BigInt shifts, bitwise operations and powers are exact",
     "Shifting a BigInt left by k multiplies by 2^k, and shifting a non-negative one right by k divides by 2^k rounding down, for every k including multiples of the word size and amounts past the end, given as BigInt or any primitive. And, or and xor of non-negative values act on their infinite binary expansions; the complement of a non-negative value shares no set bit with it, and together they fill every bit up to some width; and raising to a non-negative power equals repeated multiplication.",
     [IN], "all values, all shift amounts and exponents within memory",
     "tests shift by one; word-boundary shift amounts and operands of different lengths are the risky cases",
     [I + "big_int.rs", B + "algos/element/shl.rs", B + "algos/element/shr.rs", B + "algos/element/bitand.rs", B + "algos/element/bitor.rs", B + "algos/element/bitxor.rs"],
     [("word and bit parts of a shift", B + "algos/element/shl.rs, shr.rs"), ("operands of different lengths", B + "algos/element/bitand.rs, bitor.rs, bitxor.rs"), ("power loop", I + "big_int.rs impl Pow")],
     ["binary rendering of results"], DIFF, "shift amounts to ~700 bits, rarely to ~70000, right shifts by amounts up to the largest index and beyond (the latter may be refused, never give another value), results to ~20000 bits, powers of 0 and 1 to exponents of ~65000; right shift and bitwise operators on negative values are unspecified and not judged")
prop("C05", "BigInt text: printing and parsing are exact inverses and bad text is refused",
     "Every BigInt prints as its exact decimal, hexadecimal (lower and upper case, 0x prefix) and binary (0b prefix) digits with a leading minus sign if negative, and parsing digits of any radix from 2 to 36 (either letter case, leading zeros, optional leading minus) gives exactly the number written, so printing and parsing round-trip. A character that is not a digit of the radix, a lone sign, or a radix above 36 is an error, never a wrong number or a panic.",
     [IN], "all values, all radixes, all strings",
     "tests print five numbers and parse two; digit loops fail on particular magnitudes, zero digits, or characters",
     [I + "big_int.rs"],
     [("digit extraction by repeated division", I + "big_int.rs write_base"), ("digit accumulation", I + "big_int.rs from_str_radix"), ("digit table", I + "big_int.rs RadixChars")],
     ["Display, Debug, LowerHex, UpperHex, Binary output", "from_str_radix results and errors"], DIFF, "values to ~1300 bits; every length to 140 digits and round lengths to 1025 printed, to 3000 read; every character below U+0250 against every radix")
prop("C06", "BigInt conversions to and from primitives never change the value silently",
     "Every primitive integer converts to the BigInt of the same value and back; a checked conversion from BigInt succeeds exactly when the value is in the range of the target type and then returns that value, a saturating one clamps to the nearest limit, and a truncating one keeps the low bits in two's complement. The float approximation has the right sign and magnitude, is exact up to 53 bits, and is infinite (never NaN) when out of range.",
     [IN], "all BigInt values, all twelve primitive integer types",
     "conversion limits differ per type; tests touch almost none of the 12x5 combinations at their limits",
     [I + "big_int/macros.rs", B + "utils.rs", I + "big_int.rs"],
     [("range checks", I + "big_int/macros.rs TryFrom"), ("word packing", B + "utils.rs int_to_arr, arr_to_int"), ("float approximation", I + "big_int.rs approx_float")],
     ["conversion results"], DIFF, "limits of every type plus sampled multi-word values")
prop("C07", "BigInt variables keep their values through any history of clones and drops",
     "Over every history of creating, cloning, computing, assigning, swapping, moving and dropping BigInt values - however many are alive, however often equal values come and go, and also after an operation panicked - each live variable reads back exactly the number it was given or computed as, and equal numbers compare equal. Storage of values that are no longer referenced is reused: memory does not grow with the number of values ever created.",
     [HIST], "all single-threaded histories of operations on any number of variables",
     "large values share reference-counted storage behind a global table; a miscounted reference shows only after a particular sequence of clones, drops and reuse",
     [I + "big_int.rs", UT + "intern.rs", UT + "linked.rs"],
     [("reference counting in Clone and Drop", I + "big_int.rs impl Clone, impl Drop"), ("slot lookup and reuse", UT + "intern.rs find, add"), ("chunk list growth", UT + "linked.rs push")],
     ["binary rendering of every live variable after each step", "bytes allocated"],
     HISTO + "; allocation counting; Miri (undefined behaviour interpreter) on short histories", "up to a few thousand live values; histories of ~1500 steps",
     [("shared value table", "number of references per stored value", UT + "intern.rs Interned")])
prop("C08", "BigInt values are safe to use from many threads at once",
     "When any number of threads create, clone, read, compute with, send to each other and drop BigInt values concurrently - including equal values created and dropped at the same moment - every thread reads exactly the values it would read alone, nothing panics or hangs, and no data race occurs.",
     [SCHED, HIST], "all interleavings of operations of any number of threads",
     "the failing interleavings (a value revived while its slot is rewritten) are a few instructions wide; tests run one thread",
     [I + "big_int.rs", UT + "intern.rs", UT + "linked.rs"],
     [("global table shared by all threads", I + "big_int.rs INT_STORE"), ("atomic reference counts and slot revival", UT + "intern.rs"), ("lock-free list append", UT + "linked.rs push")],
     ["values read in each thread", "race detector reports"],
     "race detection and runtime monitoring: ThreadSanitizer and Miri (many schedules, weak memory, data race detection) plus native stress with handed-over and contended values", "2-8 threads; schedules are sampled")
prop("C09", "The interner is an exact reference-counted set of values",
     "For every sequence of add, incr, decr, get, try_get and refcount calls: adding a value equal to a live one returns its id, live values that differ have different ids, a live id always yields its value (by a reference that stays valid while it is live), the reported count is exactly adds plus increments minus decrements and never goes below zero, and an id whose count is zero yields nothing. Ids of dead values are reused instead of growing without bound, an add that panics in the caller's conversion changes nothing, and dropping the interner drops every stored value exactly once.",
     [HIST], "all call sequences, all capacities, any number of values",
     "tests make four calls; the interesting states (dead slots before live ones, full chunks, capacity multiples) need long histories",
     [UT + "intern.rs", UT + "linked.rs"],
     [("search for a live, dead or free slot", UT + "intern.rs find"), ("counting", UT + "intern.rs incr, decr"), ("chunked storage", UT + "linked.rs")],
     ["returned ids, values, counts", "number of stored values alive"], HISTO + "; Miri on short histories", "up to ~1800 distinct values",
     [("slot", "stored value with its number of references", UT + "intern.rs Interned")])
prop("C10", "The interner keeps its guarantees under concurrent use",
     "When threads concurrently add, read, increment and release values of one interner, all simultaneous holders of equal values have the same id, holders of different values have different ids, a held id always reads as its value, counts equal the number of holders once the threads are quiet, and no data race, panic, hang, leak or double drop occurs - also when an id reaches the reading thread with no synchronisation of its own, in which case the thread finds nothing or the right value. Interners of values that are not safe to share between threads cannot be shared or sent.",
     [SCHED, HIST], "all interleavings of all operations of any number of threads",
     "races in slot revival and list growth need two threads inside a window of nanoseconds",
     [UT + "intern.rs", UT + "linked.rs"],
     [("claiming a slot", UT + "intern.rs add"), ("publishing a new chunk", UT + "linked.rs push, set_next"), ("thread-safety bounds", UT + "intern.rs unsafe impl Sync, linked.rs unsafe impl Send/Sync")],
     ["recorded holds (value, id, from, to) of every thread", "counts at quiet points", "race detector reports"],
     "race detection and offline trace checking: ThreadSanitizer, Miri and native stress with delays injected into comparisons and conversions; recorded hold intervals are checked offline for id uniqueness and conservation", "2-8 threads; schedules are sampled")
prop("C11", "U<N> arithmetic is arithmetic modulo 2^(8N) with exact overflow reporting",
     "For every width N and all operands, U<N> +, -, *, / and % give the exact result when it fits; when it does not, development builds panic and release builds wrap modulo 2^(8N). The checked forms return None exactly when the result does not fit (or the divisor is zero), wrapping forms wrap, saturating forms clamp; division by zero panics.",
     [IN, CONF], "all widths N>=1, all operand pairs, both build modes",
     "tests use N=1,2 and a few values; carries across bytes, equal-length borrows and overflow exactly at the limit are the hard cases",
     [I + "u.rs", B + "algos/element/add.rs", B + "algos/element/sub.rs", B + "algos/element/mul.rs", B + "algos/bitwise/div.rs"],
     [("byte-array arithmetic", I + "u.rs"), ("overflow detection", B + "algos/element/*.rs *_overflowing, *_checked")],
     ["operation results, flags, panics"], DIFF, "exhaustive for N=1, sampled for N up to 33 and rarely to 257")
prop("C12", "U<N> comparison, bitwise operations, shifts and powers match the numbers",
     "For every width N, U<N> values compare like the numbers they stand for, and/or/xor/not act on the 8N bits, shifts by less than the width multiply or divide by powers of two dropping what falls outside (development builds panic for amounts beyond the width, however large), the limits and identities (zero, one, min, max) are right, and powers equal repeated multiplication, overflow being handled as in multiplication.",
     [IN, CONF], "all widths, all values, all shift amounts and exponents",
     "byte-boundary shifts and comparisons decided by a high byte are not sampled by tests",
     [I + "u.rs", B + "algos/element/shl.rs", B + "algos/element/shr.rs", B + "algos/element/cmp.rs"],
     [("ordering from the most significant byte", I + "u.rs impl Ord, " + B + "algos/element/cmp.rs"), ("bit shifts over bytes", B + "algos/element/shl.rs, shr.rs"), ("power loop", I + "u.rs impl Pow")],
     ["operation results, panics"], DIFF, "exhaustive for N=1, sampled for N up to 33 and rarely to 257; amounts beyond the width may panic in release builds, otherwise are reduced modulo the width; an amount of exactly the width is not judged")
prop("C13", "U<N> conversions, bytes and text keep the value",
     "For every width N, a checked conversion between U<N> and a primitive unsigned integer succeeds exactly when the value fits and keeps it, truncating conversions keep the low bits, saturating ones clamp, byte arrays in little, big and native order round-trip and lay the bytes out as named, and a value prints as its exact decimal digits.",
     [IN, CONF], "all widths, all values, all unsigned primitives",
     "widths smaller than, equal to and larger than each primitive behave differently; tests cover one",
     [I + "u.rs", T + "bytes.rs", B + "utils.rs"],
     [("conversion macros", I + "u.rs"), ("byte order", I + "u.rs FromBytes/ToBytes"), ("decimal output", I + "u.rs impl Display")],
     ["conversion results", "byte arrays", "Display output"], DIFF, "N up to 33 and rarely to 257")
prop("C14", "I<N> is two's complement arithmetic of 8N bits",
     "For every width N, I<N> +, -, * and negation give the two's complement result modulo 2^(8N), / truncates toward zero and % takes the sign of the dividend, comparison is the order of the signed numbers, and, or, xor and not act on the bits, abs, sign predicates, limits and identities agree with the value, and division by zero panics.",
     [IN, CONF], "all widths, all operand pairs",
     "sign handling around the minimum value and sign bytes is not sampled by tests",
     [I + "i.rs", B + "algos/element/add.rs", B + "algos/element/mul.rs", B + "algos/bitwise/div.rs"],
     [("two's complement on byte arrays", I + "i.rs"), ("signed ordering", I + "i.rs impl Ord")],
     ["operation results"], DIFF, "exhaustive for N=1, sampled for N up to 33 and rarely to 257")
prop("C15", "Digit-slice addition, subtraction and multiplication are exact",
     "For little-endian slices of u8, u16, u32, u64, u128 or usize digits of any (also different) lengths, add, sub and mul give the exact integer result (sub as magnitude and sign); the wrapping forms give it modulo the width of the left slice, the overflowing forms add an exact flag, the checked forms refuse exactly on overflow, and in-place and slice-output forms write the same digits as the allocating ones.",
     [IN, CONF], "all slice lengths and contents, all digit types, both algorithm families",
     "carry chains that run past the shorter operand or out of the top digit are data dependent; tests use one- and two-digit slices",
     [B + "algos/element/add.rs", B + "algos/element/sub.rs", B + "algos/element/mul.rs", B + "algos/bitwise/add.rs", B + "algos/bitwise/sub.rs", B + "algos/bitwise/mul.rs"],
     [("carry propagation", B + "algos/element/add.rs"), ("borrow and sign", B + "algos/element/sub.rs"), ("column products", B + "algos/element/mul.rs"), ("bit-by-bit variants", B + "algos/bitwise/*.rs")],
     ["returned digits, flags, written slices"], DIFF, "exhaustive for short u8 slices, sampled to ~24 digits")
prop("C16", "Digit-slice division is exact for every digit type",
     "For digit slices of any lengths with a non-zero divisor, long division returns the exact quotient and remainder (numerator = quotient*divisor + remainder, remainder < divisor), the same from every entry point and independent of leading zero digits; a zero divisor panics, or gives None from the checked form.",
     [IN, CONF], "all slice lengths and contents, all digit types",
     "division fails for particular length and bit-pattern combinations",
     [B + "algos/bitwise/div.rs", B + "algos/element/div.rs"],
     [("shift-and-subtract division", B + "algos/bitwise/div.rs"), ("digit division", B + "algos/element/div.rs")],
     ["quotient and remainder digits, panics"], DIFF, "element-wise division family only on narrow digits (its running time is exponential in the digit width)")
prop("C17", "Digit-slice shifts, bitwise operations and comparison match the numbers",
     "For digit slices of any lengths and every shift amount, left shift multiplies by 2^k and right shift divides by 2^k rounding down, both in newly allocated digits; the in-place forms keep the slice's length, the checked ones refusing amounts beyond its width and the wrapping ones reducing the amount modulo its width. And, or and xor act digit by digit with missing digits read as zero, not inverts every bit, and comparison is the order of the numbers regardless of leading zero digits.",
     [IN, CONF], "all slice lengths, contents, shift amounts and digit types",
     "shift amounts at digit boundaries and slices of different lengths are rarely sampled",
     [B + "algos/element/shl.rs", B + "algos/element/shr.rs", B + "algos/bitwise/shl.rs", B + "algos/bitwise/shr.rs", B + "algos/element/cmp.rs", B + "algos/element/bitand.rs", B + "algos/element/bitor.rs", B + "algos/element/bitxor.rs", B + "algos/element/neg.rs"],
     [("digit and bit parts of a shift", B + "algos/element/shl.rs, shr.rs"), ("comparison", B + "algos/element/cmp.rs")],
     ["returned digits, orderings, refusals"], DIFF, "exhaustive shift amounts for short slices, sampled to ~24 digits")
prop("C18", "Bit access and digit repacking lose nothing",
     "On digit slices of every unsigned type, reading, setting and iterating bits (with exact remaining lengths at every step) agree with the binary digits of the number, pushing bits grows the number without disturbing others, shrinking removes exactly the leading zero digits, and repacking an integer into digits of another width and back returns the same integer, refusing exactly what does not fit.",
     [IN, HIST, CONF], "all slices, indices, iteration orders, and width combinations",
     "index arithmetic at digit boundaries has many corner cases, different for every digit type",
     [B + "bit_slice.rs", B + "bit_slice/iter.rs", B + "utils.rs"],
     [("bit indexing", B + "bit_slice.rs"), ("bit iteration", B + "bit_slice/iter.rs"), ("repacking", B + "utils.rs int_to_arr, arr_to_int")],
     ["bits, lengths, slices, integers returned"], DIFF, "slices to ~20 digits")
prop("C19", "Numeric traits on primitives do exactly what the primitive operations do",
     "For every primitive integer type (and floats where implemented), the trait forms of checked, wrapping and overflowing arithmetic, widening multiplication, shifts, powers, gcd, factorial, rounding, bounds, identities, leading and trailing zero counts, sign tests and (for floats) the real functions return what the operation means mathematically, for all arguments, panicking only where the primitive operation itself does; the roots the trait of real numbers provides by itself are roots for a user's type too.",
     [IN, CONF], "all primitive types, all argument values",
     "hundreds of macro-generated implementations, of which tests call a handful",
     [T + "__impl.rs", T + "__impl/nz.rs", T + "ops.rs", T + "class.rs", T + "identity.rs", T + "ops/widening.rs"],
     [("macro-generated implementations", T + "__impl.rs"), ("widening products", T + "ops/widening.rs"), ("non-zero types", T + "__impl/nz.rs")],
     ["trait method results, panics"], DIFF, "exhaustive over 8-bit pairs, sampled for wider types")
prop("C20", "Casts between primitives are checked, saturated or truncated exactly",
     "For every implemented pair of primitive types, a checked cast succeeds exactly when the value is representable in the target and then keeps it, a saturating cast clamps to the nearest limit, a truncating cast keeps the low bits, an integer cast to a float gives the nearest float, and byte conversions round-trip in the named order, those the trait provides by itself for a user's type included.",
     [IN, CONF], "all type pairs, all values",
     "over a hundred macro-generated pairs; sign and width mixes fail only at limits",
     [T + "cast.rs", T + "__impl.rs", T + "bytes.rs"],
     [("macro-generated casts", T + "__impl.rs"), ("cast traits", T + "cast.rs")],
     ["cast results"], DIFF, "exhaustive for 8- and 16-bit sources, limits and samples otherwise")
prop("C21", "Fixed-point numbers compute and print scaled binary fractions exactly",
     "A fixed-point number with N binary places holds an exact multiple of 2^-N: construction, +, -, comparison, %, multiplication (the exact product rounded down to N places) and division (the exact quotient truncated to N places) agree with exact rational arithmetic whenever intermediate results fit the underlying integer, be it a primitive, a U<N> or a BigInt (for which products and rounding are meant for non-negative values); floor, ceil, trunc, round and fract agree with the value, and debug output shows its exact decimal digits.",
     [IN, CONF], "all N, underlying types and values whose scaled products fit",
     "scale factors, negative values and digits with leading zeros interact; tests use a few positive values",
     [R + "fixed.rs"], [("rescaling after multiplication and division", R + "fixed.rs Mul, Div"), ("rounding", R + "fixed.rs Real"), ("digit output", R + "fixed.rs Debug")],
     ["operation results", "Debug output"], DIFF, "i8..i128 bases, N to 6; pow and log are unimplemented upstream")
prop("C22", "Rationals stay reduced and compute exactly",
     "A rational built from any numerator and non-zero denominator, and the result of every +, -, *, / and negation and absolute value, is the exact fraction in lowest terms with a positive denominator, so equal values are always equal; a zero denominator is refused, sign tests, zero and one tests describe the value, and floor (toward zero), ceil (away from zero) and round agree with the value whenever the parts fit the underlying integer.",
     [IN, CONF], "all fractions whose intermediate products fit the underlying type",
     "reduction and sign normalisation fail for particular factor patterns only",
     [R + "rat.rs", T + "__impl.rs"], [("reduction by gcd and sign normalisation", R + "rat.rs new"), ("fraction arithmetic", R + "rat.rs")],
     ["numerator, denominator, equality"], DIFF, "all primitive integer types, 8-bit ones exhaustively; ordering, powers, logarithms are unimplemented upstream")
prop("C23", "Complex arithmetic satisfies the field laws",
     "Complex +, -, * and /, each with a complex or a scalar right-hand side, construction from real and imaginary parts, the squared absolute value and the zero and one tests give the exact components of complex arithmetic over any exact component type; over floats the results, and the absolute value, are right to rounding as long as no intermediate product overflows, and +, - and a scalar right-hand side treat each component exactly as the float operation does, infinities and NaN included.",
     [IN, CONF], "all component values and component types",
     "component mix-ups are invisible for real, symmetric or unit operands as used in tests",
     [K + "complex.rs"], [("component formulas", K + "complex.rs")], ["components of results"],
     DIFF + " (component type: exact rationals defined in the harness)", "components sampled")
prop("C24", "Vectors act component by component",
     "For vectors of every length, +, -, *, /, % with vectors or scalars (by value, by reference, in place), checked forms, indexing and named components, dot product, sum, product, squared distance and distance, cross product, wedge product and conversion to row or column matrices give the result of the definition at every component, and checked forms fail exactly when a component does.",
     [IN, CONF], "all lengths, component values and operator forms",
     "each operator form is a separate implementation; tests cover few of them",
     [K + "vector.rs", S + "lib.rs"], [("component-wise operators", K + "vector.rs"), ("array iteration", S + "lib.rs")],
     ["components of results"], DIFF, "lengths 0-17, rarely to 512, integer, float and exact rational components")
prop("C25", "Matrix arithmetic follows the definitions in every shape",
     "For matrices of every shape, addition, subtraction, matrix product, transpose, zero and identity, construction from rows and columns, diagonal, row swaps, element access and equality give the entries of the mathematical definition; products associate, identities are neutral and transposing twice gives the original. Dynamic matrices refuse dimensions that do not match their data and hold and swap the same entries as static ones.",
     [IN, CONF], "all shapes, entries and operator forms",
     "row/column mix-ups are invisible on the square and symmetric examples tests use",
     [K + "matrix/static.rs", K + "matrix/dynamic.rs", K + "matrix/macros.rs", K + "matrix/refs.rs"],
     [("index arithmetic", K + "matrix/dynamic.rs, static.rs"), ("products", K + "matrix/static.rs")],
     ["entries of results"], DIFF, "26 shapes from 1x1 to 33x1 and 12x12, rarely 16 more to 260x1, 16x16 and 64x2")
prop("C26", "Gaussian elimination and determinants are exact over exact fields",
     "For every matrix over an exact field, elimination yields an equivalent matrix in row echelon form with the same solution set, and the determinant equals the Leibniz determinant (zero exactly for singular matrices, also when pivots must be swapped). Elimination does so for static and dynamic, square and non-square matrices.",
     [IN, CONF], "all shapes and entries, including singular matrices and zero pivots",
     "zero pivots, row swaps and non-square shapes need specific matrices",
     [K + "matrix/macros.rs", K + "matrix/static.rs", K + "matrix/dynamic.rs"],
     [("pivot search and row swaps", K + "matrix/macros.rs"), ("determinant", K + "matrix/static.rs")],
     ["entries after elimination, determinant"], DIFF + " (component type: exact rationals defined in the harness)", "shapes to 6x6, rarely to 17x17, 64x3 and 130x1")
prop("C27", "Matrix views and indexing never reach outside the matrix",
     "Element access through static and dynamic matrices and through views of them, shared, copied or mutable, returns exactly the addressed entry and writes reach exactly the addressed entry; every out-of-range row or column index, also in row swaps, is refused by a panic instead of touching other entries or other memory, for every shape. Views of entries that may not be shared between threads cannot be sent or shared.",
     [IN, CONF], "all shapes and index pairs, in and out of range",
     "one-past-the-end indices land in neighbouring memory and often go unnoticed",
     [K + "matrix/refs.rs", K + "matrix/static.rs", K + "matrix/dynamic.rs"],
     [("bounds checks", K + "matrix/refs.rs"), ("pointer arithmetic of views", K + "matrix/refs.rs")],
     ["entries read and written, refusals", "sanitizer reports"],
     "AddressSanitizer and Miri plus runtime monitoring against a table model", "shapes to ~6x6, rarely to 257x1 and 16x16, dynamic ones to 70x70, all indices near the borders")
prop("C28", "Array iterators yield every element once, in order, and drop everything once",
     "Mapping, zipping (pairs and tuples), enumerating, folding, searching, summing, ranges and collecting (also into Option or Result) visit elements exactly once, in index order and each only when its turn comes, and produce arrays of exactly the right contents; each element is dropped exactly once even when iteration stops early, a collection fails half way, or a user closure panics at any position.",
     [IN, HIST, "fault_sequences"], "all lengths, adapter combinations, stop and panic positions",
     "uninitialised or doubly dropped elements show only when a closure fails at a particular position",
     [S + "lib.rs", S + "array.rs", S + "adapter.rs", S + "zip_all.rs"],
     [("partially initialised arrays", S + "lib.rs"), ("by-value iteration", S + "array.rs"), ("adapters", S + "adapter.rs, zip_all.rs")],
     ["sequence of visits", "constructions and drops of every element"],
     "fault injection (panic, early stop, failure at every position) with drop ledgers, under Miri and AddressSanitizer and natively", "lengths 0-9 and 16 exhaustive positions, sampled to 64, plain numbers to 1024")
prop("C29", "Safe calls never cause undefined behaviour or leaks",
     "No sequence of safe calls to the library's public types - big integers, fixed-width integers, digit slices, interner, vectors, matrices, array iterators - reads or writes memory out of bounds, uses freed or uninitialised memory, breaks aliasing rules, or leaks memory, for any input including ones that panic (references obtained from an interner being used only while their id is counted).",
     [IN, HIST], "all safe call sequences",
     "undefined behaviour usually produces the expected value; only instrumented execution sees it",
     [UT + "intern.rs", UT + "linked.rs", S + "lib.rs", S + "array.rs", K + "matrix/refs.rs", K + "vector.rs", I + "u.rs", I + "i.rs", I + "big_int.rs"],
     [("unsafe blocks", UT + "*, " + S + "*, " + K + "matrix/refs.rs, " + I + "big_int.rs")],
     ["Miri reports", "AddressSanitizer and LeakSanitizer reports"],
     "undefined-behaviour interpreter (Miri), AddressSanitizer, LeakSanitizer, MemorySanitizer and an allocation balance over a mixed workload of the whole public API", "sampled workloads")
prop("C30", "Float wrappers, byte forms and random sampling represent the right values",
     "Converting a float wrapper F<N> to and from bytes (little, big, native order) or bits preserves every pattern and puts every byte where the order says, and random sampling of U<N> and I<N> fills every bit from the generator's bytes so that all values can occur.",
     [IN, CONF], "all bit patterns and widths",
     "byte orders are indistinguishable on symmetric patterns, and a bit that is never sampled is invisible in single draws",
     [R + "f.rs", I + "u/rand_impl.rs", I + "i/rand_impl.rs"],
     [("byte and bit forms", R + "f.rs"), ("sampling", I + "u/rand_impl.rs, i/rand_impl.rs")],
     ["bytes, bits, sampled values"], DIFF, "sampled patterns")

OUT = set(sys.argv[1:])  # properties not built yet


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {
                    "files": p["files"],
                    "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                    "observe_at": p["observe"],
                    "hook_needed": None,
                },
            }
            if p["state"]:
                d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(d) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "bash setup.sh",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3 run_check.py %s quick" % p["id"],
            "thorough_cmd": "python3 run_check.py %s thorough" % p["id"],
            "technique": p["tech"],
            "level": "exploration",
            "level_note": p["note"],
            "evidence_file": "evidence/%s.json" % p["id"],
        } for p in P if p["id"] not in OUT],
        "not_applicable": [{"property": i, "reason": "check still under construction"} for i in sorted(OUT)],
        "notes": "No hooks: everything is observed through the public API, sanitizers and Miri. Known findings and repaired defects are in KNOWN_FINDINGS.txt.",
    }
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
