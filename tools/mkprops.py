"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = [observe]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

W = "every width (256, 384, 512, 1024), both signednesses, 32- and 64-bit limbs, with and without the inline-assembly path, overflow checks on and off"

p("P01", "Addition, subtraction, negation and absolute value are exact in every mode",
  "For every pair of values, wrapping addition and subtraction equal the exact integer result reduced modulo 2^BITS, and the overflowing, checked, saturating, strict and unchecked forms differ from it only in how they report that the exact result is out of range: flag set, none, clamp to the nearer bound, panic. The same holds for negation, absolute value, the mixed signed/unsigned forms, and addition/subtraction with a carry or borrow input. A report of overflow is given if and only if the exact result is not representable.",
  ["inputs", "configurations"],
  "All operand pairs (and carry inputs) for " + W + ".",
  "Carry chains cross limb boundaries only for particular limb patterns; 2^512 operand pairs per width, and the tests use a few hand-picked values of one width in one build mode.",
  ["src/math/add.rs", "src/math/sub.rs", "src/uint/overflowing.rs", "src/int/overflowing.rs", "src/shared/bigint.rs", "src/int/saturating.rs", "src/uint/saturating.rs"],
  [("limb-wise carry propagation", "src/math/add.rs"), ("limb-wise borrow propagation", "src/math/sub.rs"), ("signed overflow detection at the top limb", "src/math/add.rs, src/math/sub.rs"), ("mode wrappers", "src/{uint,int}/{checked,saturating,strict,wrapping,overflowing}.rs, src/shared/")],
  "return values of the public methods")

p("P02", "Multiplication and exponentiation are exact in every mode",
  "For every pair of values, wrapping multiplication equals the exact product reduced modulo 2^BITS and the overflowing, checked, saturating, strict and unchecked forms report overflow if and only if the exact product is not representable. The double-width forms (widening, carrying and high-half multiplication) return all 2*BITS bits of the exact result. Raising to a power behaves like the exact integer power under the same reporting rules.",
  ["inputs", "configurations"],
  "All operand pairs, carries and exponents for " + W + ".",
  "Overflow detection depends on partial products and on sign handling right at 2^(BITS-1) and 2^BITS; random or hand-picked values almost never land on those boundaries.",
  ["src/math/mul.rs", "src/math/bigint.rs", "src/uint/ops.rs", "src/uint/extensions.rs", "src/shared/checked.rs", "src/shared/overflowing.rs", "src/shared/wrapping.rs"],
  [("schoolbook limb multiplication", "src/math/mul.rs"), ("signed product overflow rule", "src/math/mul.rs"), ("early overflow exit on bit lengths", "src/shared/checked.rs"), ("square-and-multiply", "src/shared/overflowing.rs, src/shared/wrapping.rs")],
  "return values of the public methods")

p("P03", "Every form of division and remainder satisfies its defining identity",
  "For every dividend and non-zero divisor the quotient and remainder satisfy dividend = quotient*divisor + remainder with the remainder in the range its rounding mode defines (truncating, Euclidean, floor, ceiling), and all forms that compute the same quantity agree. The one overflowing case, minimum divided by minus one, is wrapped, flagged, refused, clamped or panics according to the form used. Division by zero is refused by the checked forms and panics in all others: it never returns a number and never kills the process by a hardware trap.",
  ["inputs", "configurations"],
  "All dividend/divisor pairs including zero divisors, for " + W + ".",
  "Long division has correction steps that fire with probability around 2^-64 on random operands, so ordinary tests never execute them.",
  ["src/math/div.rs", "src/uint/ops.rs", "src/int/ops.rs", "src/shared/ops.rs", "src/uint/wrapping.rs", "src/int/wrapping.rs"],
  [("multi-limb long division with estimate correction and add-back", "src/math/div.rs"), ("128-by-64 hardware division", "src/math/div.rs"), ("sign fix-up and rounding adjustments", "src/int/wrapping.rs, src/int/ops.rs"), ("zero and minimum/-1 guards", "src/uint/checked.rs, src/int/checked.rs, src/shared/checked.rs")],
  "return values and panics of the public methods")

p("P04", "Arithmetic with a primitive scalar equals the full-width operation",
  "For every big integer and every primitive scalar accepted by a scalar overload (limb, double limb, 32, 64 and 128 bit, signed and unsigned), adding, subtracting, multiplying, dividing or taking the remainder gives exactly the result of first converting the scalar to an unbounded integer and doing the operation exactly, in the plain, wrapping, overflowing and checked forms. Overflow is reported if and only if the exact result is not representable. Dividing a signed value by an unsigned scalar rounds toward negative infinity so that the remainder is non-negative; a zero scalar divisor is refused or panics.",
  ["inputs", "configurations"],
  "All (big integer, scalar) pairs for every scalar type; " + W + ".",
  "There are several hundred overloads with separate code paths per limb size; the tests exercise a few of them with a few values.",
  ["src/shared/limb.rs", "src/uint/limb.rs", "src/int/limb.rs", "src/math/add.rs", "src/math/sub.rs", "src/math/mul.rs", "src/math/div.rs", "src/util.rs"],
  [("single and double limb kernels", "src/math/{add,sub,mul,div}.rs"), ("splitting of 128-bit scalars into limbs", "src/util.rs"), ("floor adjustment of signed by unsigned division", "src/int/limb.rs")],
  "return values and panics of the public methods")

p("P05", "Plain operators panic on overflow exactly when overflow checks are on",
  "When the crate is built with overflow checks, every plain operator and plain method (+, -, *, /, %, unary -, <<, >>, power, absolute value, next power of two, next multiple, scalar forms) panics if the exact result is not representable or the shift distance is out of range, and otherwise returns the exact result. When it is built without them, the same operators return the wrapped result, and only division by zero and forms documented to panic in any build do so. The by-value, by-reference and compound-assignment spellings of an operator all give the same outcome.",
  ["inputs", "configurations"],
  "All operands and shift distances of every primitive and big type; both build modes; " + W + ".",
  "The existing tests run in one build mode and never observe the other; reference and assignment spellings and the shift overloads for twelve primitive types are mostly untested.",
  ["src/shared/ops.rs", "src/shared/traits.rs", "src/shared/shift.rs", "src/shared/bitops.rs", "src/int/traits.rs", "src/uint/traits.rs", "build.rs"],
  [("overflow-check mode switch", "build.rs, src/shared/ops.rs, src/shared/limb.rs"), ("operator trait forwarding", "src/shared/traits.rs, src/shared/shift.rs"), ("shift range assertions", "src/shared/shift.rs")],
  "values and panics of the operator traits")

p("P06", "Shifts and rotations move exactly the requested number of bits",
  "For every value and distance, left shift multiplies by a power of two modulo 2^BITS, right shift divides rounding toward negative infinity (filling with the sign for signed types), and rotation is a lossless cyclic permutation of the bits whose left and right forms are inverse. A distance of BITS or more is reduced modulo the width by the wrapping and overflowing forms (flagged by the latter), refused by checked, panics in strict, and gives zero in the unbounded forms. Distances that are exact multiples of the limb size, zero, and one less than the width are no exception.",
  ["inputs", "configurations"],
  "All values and all shift distances including those beyond the width; " + W + ".",
  "Limb-crossing logic depends on the distance modulo the limb size and on the number of limbs; the tests try only a handful of distances on one width.",
  ["src/math/shift.rs", "src/math/rotate.rs", "src/uint/bitops.rs", "src/int/bitops.rs", "src/shared/unbounded.rs", "src/shared/checked.rs", "src/shared/strict.rs"],
  [("limb shift with cross-limb carry", "src/math/shift.rs"), ("sign fill of arithmetic right shift", "src/math/shift.rs"), ("rotation by limb and bit parts", "src/math/rotate.rs")],
  "return values of the public methods")

p("P07", "Bitwise logic, bit counts and bit reversal follow the binary representation",
  "For every value, the logical operators act independently on each of the BITS bits, and the counts of ones, zeros, leading and trailing ones and zeros describe exactly the two's-complement bit string. Byte swap and bit reversal permute those bits as their names say and undo themselves. Parity, low/high halves and limb accessors read the same bit string.",
  ["inputs", "configurations"],
  "All values and pairs of values; " + W + ".",
  "A count is wrong only when the interesting run ends in a particular limb; the tests cover a few values of one width.",
  ["src/shared/bitops.rs", "src/shared/endian.rs", "src/shared/extensions.rs", "src/uint/extensions.rs"],
  [("per-limb counting with early exit", "src/shared/bitops.rs"), ("limb-reversing byte/bit swap", "src/shared/endian.rs"), ("limb accessors", "src/shared/extensions.rs")],
  "return values of the public methods and operator traits")

p("P08", "Comparison is the numeric total order and agrees with equality and hashing",
  "For every pair of values, all comparison operators and methods, including the compile-time ones, min, max and clamp, agree with the order of the numbers represented, and exactly one of less, equal, greater holds. Equal values hash equally, and values are equal if and only if all their bits are. Sign queries and the sign function agree with comparison against zero, and the published minimum, maximum and width are those of the numbers the type can hold.",
  ["inputs", "configurations"],
  "All pairs and triples of values; " + W + ".",
  "Lexicographic limb comparison goes wrong only for pairs that tie in the high words and differ in one particular lower word, with a particular sign.",
  ["src/shared/ord.rs", "src/shared/mod.rs", "src/int/ops.rs", "src/int/mod.rs", "src/uint/mod.rs"],
  [("word-wise lexicographic comparison with signed top word", "src/shared/ord.rs"), ("derived equality and hash", "src/shared/mod.rs"), ("sign tests", "src/int/ops.rs")],
  "return values of the comparison traits and methods")

p("P09", "Conversions to and from primitives keep the value or reject it",
  "Converting from any primitive integer, bool or char preserves the numeric value (sign-extending, modulo 2^BITS for casts of negatives to unsigned types), and casting down keeps exactly the low bits as a primitive cast would. Fallible conversions succeed if and only if the value is representable in the target, and then preserve it. Casting between the signed and unsigned type of the same width preserves the bit pattern in both directions.",
  ["inputs", "configurations"],
  "All primitive values and all big values, in particular at every primitive's and the big type's own limits; " + W + ".",
  "Off-by-one errors at type limits and sign-extension errors show only on boundary values in one of the dozens of conversions.",
  ["src/shared/casts.rs", "src/uint/casts.rs", "src/int/casts.rs", "src/uint/traits.rs", "src/int/traits.rs", "src/shared/traits.rs", "src/error.rs"],
  [("sign extension across limbs", "src/shared/casts.rs"), ("low-limb truncation", "src/shared/casts.rs"), ("range tests of the fallible conversions", "src/uint/traits.rs, src/int/traits.rs, src/shared/traits.rs")],
  "return values of the conversion methods and traits")

p("P10", "Byte, limb and word views are faithful in every byte order and invert each other",
  "For every value, the big-, little- and native-endian arrays of bytes, limbs, double limbs, 32-bit and 64-bit words are the base-256, base-2^32, ... digits of its two's-complement representation in the stated order. Building a value back from any of these arrays returns the original, and every array is accepted. Indexed limb access returns the digit of the stated significance, and an index beyond the last limb panics.",
  ["inputs", "configurations"],
  "All values, all arrays, all indices; " + W + ".",
  "An ordering mistake is invisible on symmetric values and on the one view a test happens to use.",
  ["src/shared/endian.rs", "src/shared/extensions.rs", "src/util.rs"],
  [("array reversal between byte orders", "src/util.rs, src/shared/endian.rs"), ("reinterpretation of limb storage", "src/shared/endian.rs")],
  "arrays returned by the public methods")

p("P11", "Parsing accepts exactly the valid numerals and returns their value",
  "For every string and every radix from 2 to 36, parsing succeeds if and only if the string is an optional sign (minus only for signed types) followed by one or more digits of that radix, in either letter case, whose value fits the type, and the result is that value. The error says whether the text was empty, contained a bad digit, or was too large or too small. Parsing never panics for a valid radix, whatever the text, and decimal parsing through the standard trait gives the same answer.",
  ["inputs", "configurations"],
  "All strings (including non-ASCII, embedded signs, leading zeros, lengths around the fast-path limits) and all radixes; " + W + ".",
  "Length-based fast paths and overflow detection at exactly the limit need numerals of specific lengths and values in each of 35 radixes.",
  ["src/parse.rs", "src/uint/traits.rs", "src/int/traits.rs", "src/error.rs"],
  [("choice of the unchecked fast path by digit count", "src/parse.rs"), ("checked accumulation toward each bound", "src/parse.rs"), ("short-string delegation", "src/uint/traits.rs, src/int/traits.rs")],
  "result and error kind of the parsing functions")

p("P12", "Formatting prints the exact numeral and parses back to the same value",
  "For every value, decimal display and debug print the canonical decimal numeral (no leading zeros, a minus sign for negative values); binary, octal and hexadecimal print the two's-complement bit pattern with the 0b/0o/0x prefix only in alternate form; scientific notation denotes exactly the value. Writing digits in any radix from 2 to 36 into a sufficiently large buffer yields the canonical numeral with a minus sign for negative values. Parsing any of these numerals back in the same radix returns the original value.",
  ["inputs", "configurations"],
  "All values, all radixes, alternate form on and off; " + W + ".",
  "Digit extraction relies on repeated division and buffer positions; errors appear only for values with zero digits in particular places, at type limits, or for negative values.",
  ["src/write.rs", "src/uint/traits.rs", "src/int/traits.rs"],
  [("digit extraction loop", "src/write.rs"), ("sign handling of signed formatting", "src/int/traits.rs, src/write.rs"), ("prefix and case handling", "src/uint/traits.rs")],
  "formatted strings and written buffers")

p("P13", "Logarithms, powers of two, multiples, midpoint and differences are exact",
  "For every argument, the integer logarithm in any base is the largest exponent whose power does not exceed the value (refused or panicking for non-positive values or bases below two), the next power of two and next multiple are the nearest such numbers in the documented direction with overflow refused, and the corresponding predicates agree. The absolute difference and checked signed difference equal the exact difference or are refused when it does not fit. The midpoint is the exact average rounded toward zero, without overflow.",
  ["inputs", "configurations"],
  "All arguments, bases and multiples; " + W + ".",
  "Each of these functions has edge cases at powers of the base, at multiples, at the type limits and around sign changes.",
  ["src/uint/ops.rs", "src/int/ops.rs", "src/uint/checked.rs", "src/int/checked.rs", "src/uint/wrapping.rs"],
  [("repeated-division logarithm", "src/uint/checked.rs, src/int/checked.rs"), ("power-of-two rounding", "src/uint/checked.rs, src/uint/wrapping.rs"), ("multiple rounding with sign handling", "src/uint/ops.rs, src/int/ops.rs"), ("overflow-free averaging", "src/uint/ops.rs, src/int/ops.rs")],
  "return values and panics of the public methods")

p("P14", "The num-traits interface gives the same answers as the inherent operations",
  "With the num-traits support enabled, every generic operation (arithmetic, checked, saturating, wrapping, shifts, Euclidean division, power, bit queries, byte conversion, parsing, bounds, zero and one, sign functions) returns what the corresponding inherent operation or exact arithmetic returns. Conversions to and from primitive integers return a value if and only if it is representable in the target and then preserve it; casts truncate like primitive casts. Sign predicates follow the trait's contract: zero is neither positive nor negative.",
  ["inputs", "configurations"],
  "All arguments of the implemented traits; " + W + ".",
  "The glue is hundreds of small hand-written forwarders; the existing tests touch almost none of them.",
  ["src/shared/num_traits_impls.rs", "src/uint/traits.rs", "src/int/traits.rs"],
  [("forwarding impls", "src/shared/num_traits_impls.rs"), ("range tests of primitive conversions", "src/uint/traits.rs, src/int/traits.rs"), ("signed predicates", "src/int/traits.rs")],
  "return values of the trait methods")

p("P15", "A computation gives the same results in every build configuration",
  "Any sequence of operations on big integers, whatever intermediate values it feeds from one step into the next, produces the same values, the same text and the same panics whether the crate is built with 32-bit or 64-bit limbs, with or without the inline assembly, optimised or not. Those values are the ones exact integer arithmetic gives. Switching overflow checks on changes nothing except that overflowing plain operations panic.",
  ["programs", "histories", "configurations"],
  "All straight-line programs over the public operations, run in every combination of limb size, assembly path, optimisation level and overflow-check mode, for all four widths.",
  "Tests run single operations in one configuration at a time and never compare configurations; values reached by long histories have limb patterns no one writes by hand.",
  ["src/types.rs", "src/util.rs", "src/math/add.rs", "src/math/sub.rs", "src/math/mul.rs", "src/math/div.rs", "src/math/shift.rs", "src/math/rotate.rs", "src/shared/limb.rs", "Cargo.toml", "build.rs"],
  [("limb type selection", "src/types.rs"), ("per-limb-size kernels", "src/math/*.rs, src/util.rs"), ("assembly division", "src/math/div.rs"), ("overflow-check mode switch", "build.rs")],
  "transcript of all intermediate values")

p("P16", "Results are independent of the target and free of undefined behaviour",
  "Any sequence of safe operations, and of the unchecked operations within their stated preconditions, executes without undefined behaviour. On big-endian and on 32-bit targets it produces the same values, the same digits and the same text as on a 64-bit little-endian one. Byte-order-specific views differ only in the way their names say.",
  ["programs", "inputs", "configurations"],
  "All straight-line programs over the public operations on little-endian 64-bit, big-endian 64-bit and 32-bit targets.",
  "The tests run on the host only; big-endian and 32-bit code paths are never executed, and undefined behaviour does not show in a test's result.",
  ["src/util.rs", "src/shared/endian.rs", "src/shared/extensions.rs", "src/shared/ord.rs", "src/shared/unchecked.rs", "src/int/unchecked.rs", "src/types.rs", "src/math/mul.rs", "src/math/add.rs"],
  [("native-order limb indexing", "src/util.rs"), ("storage reinterpretation", "src/shared/endian.rs, src/shared/extensions.rs"), ("unreachable hints of the unchecked operations", "src/shared/unchecked.rs, src/int/unchecked.rs")],
  "transcript of all values, observed inside an interpreter that detects undefined behaviour")

p("P17", "Operations usable in constants give their run-time results there",
  "Every operation that the crate declares usable in constant expressions can be evaluated by the compiler for any arguments for which it does not panic, in every limb size and with overflow checks on or off. The value computed at compile time is the one exact arithmetic gives, hence the same as at run time. No such evaluation is rejected because it needs something that only exists at run time, such as a trait call or an out-of-bounds pointer.",
  ["inputs", "programs", "configurations"],
  "All constant expressions formed by one call of a constant operation on arbitrary constant arguments, for all four widths and both signs, with 32- and 64-bit limbs and overflow checks on and off.",
  "The tests call everything at run time; a function can lose its constant evaluation, or use pointer tricks only the compile-time interpreter rejects, without any run-time test noticing.",
  ["src/util.rs", "src/math/mod.rs", "src/shared/casts.rs", "src/shared/ord.rs", "src/shared/bitops.rs", "src/uint/ops.rs", "src/int/ops.rs", "src/parse.rs"],
  [("constant functions of the types", "src/uint/*.rs, src/int/*.rs, src/shared/*.rs"), ("storage reinterpretation in constants", "src/util.rs, src/shared/endian.rs"), ("constant loops of the arithmetic", "src/math/*.rs")],
  "values of constants in programs compiled against the crate, and whether they compile")

p("P18", "The limb-array routines are exact for every array length and limb size",
  "The public routines that work on little arrays of 32- or 64-bit limbs (addition, subtraction and multiplication with arrays, limbs and double limbs, signed and unsigned, wrapping and overflowing; arrays of two different lengths; shifts, rotations, division, comparison, single-digit steps with carry) give the exact result for every array length they accept, not only the lengths the integer types have. Wrapping forms reduce modulo the size of the array, overflowing forms report overflow if and only if the exact result does not fit. Odd lengths, two-limb arrays and second operands shorter than the first are no exception.",
  ["inputs", "configurations"],
  "All limb arrays of 2 to 17 limbs of both limb sizes (shifts and rotations: 128-bit limbs too), scalars of one and two limbs, and shift distances below the array's width.",
  "The existing tests use the lengths of the integer types only; loop bounds and unrolled carries depend on the length and on the pair of lengths.",
  ["src/math/add.rs", "src/math/sub.rs", "src/math/mul.rs", "src/math/div.rs", "src/math/shift.rs", "src/math/rotate.rs", "src/math/bigint.rs"],
  [("carry loops over arrays of one and two lengths", "src/math/add.rs, src/math/sub.rs"), ("product columns and overflow detection", "src/math/mul.rs"), ("long division with lengths found at run time", "src/math/div.rs"), ("limb and bit parts of distances", "src/math/shift.rs, src/math/rotate.rs")],
  "arrays and flags returned by the public routines")

p("P19", "Width, fill, alignment, sign and prefix follow the standard conventions",
  "Formatting a value for display, debug, binary, octal or hexadecimal with any combination of width, fill character, alignment, forced sign, prefix and zero flag lays the text out exactly as the standard library does for its own integers: sign and prefix count toward the width, the zero flag pads between them and the digits, and anything else pads outside. The digits themselves never change. If the destination refuses text the call returns an error, and it returns success if all of the text was taken.",
  ["inputs", "configurations"],
  "All values, all combinations of formatting options with any width, and destinations with any amount of room; " + W + ".",
  "The tests format without options; layout depends on the length of the numeral, its sign and six options together.",
  ["src/uint/traits.rs", "src/int/traits.rs", "src/shared/traits.rs", "src/write.rs"],
  [("layout of unsigned formats", "src/uint/traits.rs"), ("sign of signed formats and forwarding to unsigned", "src/int/traits.rs"), ("debug output", "src/shared/traits.rs")],
  "formatted text and the formatter's result")

p("P20", "Optional features only add: no set of them changes what the rest does",
  "With every combination of the optional features (fixed-width scalar operations, the 384-, 512- and 1024-bit types, generic-trait support) and of the internal ones (32-bit limbs, no assembly), the crate compiles and offers everything that the chosen features stand for. The results of all operations offered are the exact ones whatever other features are on or off. So a feature switched on by another crate in the same build changes nothing for this one.",
  ["configurations", "inputs"],
  "All sets of features with overflow checks on and off, and for each all operations that it offers on arbitrary arguments.",
  "The test matrix builds eight of several hundred combinations, and the small type alone in most of them.",
  ["Cargo.toml", "src/lib.rs", "src/types.rs", "src/shared/limb.rs", "src/shared/num_traits_impls.rs", "src/uint/traits.rs", "src/int/traits.rs"],
  [("conditional definition of the types", "src/lib.rs"), ("conditional scalar operations", "src/shared/limb.rs, src/uint/limb.rs, src/int/limb.rs"), ("conditional trait implementations", "src/shared/num_traits_impls.rs")],
  "whether programs using the offered operations compile, and their results")

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
