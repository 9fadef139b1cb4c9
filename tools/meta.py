#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json (run by hand: python3 tools/meta.py)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TESTS = "The tests check single hand-picked values of a few formats; "
P = []
def p(id, title, statement, over, text, why, files, mech, technique, note, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note))

CART = "src/complex/cartesian_impl.rs"; POL = "src/complex/polar_impl.rs"; OPS = "src/complex/ops.rs"; FX = "src/fixed_impl.rs"; FL = "src/float_impl.rs"; F32 = "src/float_impl/f32_impl.rs"; F64 = "src/float_impl/f64_impl.rs"; INT = "src/int_impl.rs"; TR = "src/trigonometry.rs"; AT = "src/trigonometry/atan.rs"; SQ = "src/trigonometry/sqrt.rs"; NC = "src/complex/cartesian_impl/num_complex_impl.rs"; MT = "src/traits/math_traits.rs"; CT = "src/traits/complex_traits.rs"
TABLE = "online monitor of every call over all supported types and operand forms, two instrumented builds, exact or interval oracle"

p("C01", "Complex addition, subtraction and multiplication are exact to the type",
  "For every supported element type and every form of operand (value, shared or mutable reference, the library's Cartesian or the num crate's Complex, operator or free function), adding or subtracting complex numbers gives exactly the sum or difference of the real parts and of the imaginary parts, whenever it is representable. The product is (ac-bd) + (ad+bc)i: exact for integers, within two quanta per part for fixed point and within a few rounding errors of the four products for floats, whenever the products and sums are representable.",
  ["inputs", "programs"], "all pairs of operands, all operand forms, all signed integer, signed fixed point and float types (the free add function: unsigned types too)",
  TESTS + "each operator has one or two example values, most reference and num::Complex forms none.",
  [CART, OPS], [("operator impls and the macros expanding reference forms", CART), ("add/sub/mul_cartesian", OPS)], TABLE,
  "integer and fixed point results are compared exactly or to the quantum with 128 bit arithmetic; floats against f64")
p("C02", "Complex division divides by the divisor's squared magnitude",
  "For every supported element type and form of operand, (a+bi)/(c+di) is ((ac+bd) + (bc-ad)i)/(c*c+d*d): with quotients truncated towards zero for integers, within what rounding of numerator, denominator and quotient by a few quanta allows for fixed point, and within a few rounding errors for floats. This holds whenever the products, their sums and the quotient are representable and c*c+d*d does not vanish in the type.",
  ["inputs", "programs"], "all pairs of operands with representable products, sums and quotient and a divisor whose squared magnitude exceeds a few quanta; all signed integer, signed fixed point and float types; 13 operand forms",
  TESTS + "division has a few examples, all with divisors for which a wrong denominator would mostly go unnoticed.",
  [CART, OPS], [("div_cartesian", OPS), ("Div and DivAssign impls", CART)], TABLE,
  "for fixed point the tolerance is an interval derived from two quanta of error in numerator and denominator")
p("C03", "Compound assignment equals the binary operator",
  "For every operand kind the library accepts on the right of +=, -=, *= or /= on a Cartesian number (Cartesian, num::Complex, Polar, real scalars, by value or by reference), the compound assignment leaves bit for bit what the corresponding binary operator returns. If the one panics because a result is not representable, so does the other.",
  ["inputs", "programs"], "all operand pairs, including zeros, extremes and results which overflow; all signed types; scalars of seven types",
  TESTS + "only a few compound operators are called at all.",
  [CART], [("AddAssign, SubAssign, MulAssign, DivAssign impls", CART)], "differential monitor: both forms executed next to each other on the same operands, two instrumented builds",
  "bit for bit comparison, no oracle of its own")
p("C04", "Arithmetic of a complex number with a real scalar",
  "Adding or subtracting a real scalar of any primitive type converts the scalar to the element type and changes the real part only; multiplying scales both parts; dividing divides both parts, with integers truncated and fixed point within a quantum. Dividing by a scalar which is zero, or becomes zero when converted, gives the type's largest value in both parts instead of failing.",
  ["inputs", "programs"], "all complex numbers and scalars whose conversion and result are representable, 14 scalar types, all integer (signed and unsigned), fixed point and float element types, binary and compound forms and the free function",
  TESTS + "scalar operators are tested with one scalar type and friendly values.",
  [CART, OPS], [("scalar operator macros", CART), ("div_scalar_cartesian", OPS)], TABLE,
  "conversion oracle is an independent 128 bit implementation; all 14 scalar types on 30 types, three scalar types on all others")
p("C05", "Products and quotients of polar numbers",
  "The product of two polar numbers has the product of the magnitudes and the sum of the angles, and is the polar zero if a magnitude is zero; a real scalar multiplies or divides the magnitude alone, and division by zero gives the largest magnitude. A product with a Cartesian operand on either side is, within the accuracy of the conversion between the forms, the product of the numbers both operands stand for.",
  ["inputs", "programs"], "all operands with representable results, all signed types for polar by polar or scalar, signed fixed point and floats for mixed products, all reference forms",
  TESTS + "there are two examples, none with a Cartesian on the right.",
  [POL, CART, OPS], [("mul_polar", OPS), ("Mul and Div impls", POL), ("Cartesian times Polar", CART)], TABLE,
  "mixed products are judged with the accuracy bounds of C06/C15 propagated through the product")
p("C06", "Cartesian and polar forms denote the same number",
  "Converting a number from Cartesian to polar form gives the magnitude sqrt(re*re+im*im) and the angle of the point in (-pi, pi], converting from polar to Cartesian gives magnitude times cosine and sine of the angle, and converting there and back returns the number, all within the documented accuracy of the type's square root, arctangent, sine and cosine. Magnitude, absolute value, argument and the constructors agree with these conversions by every entry point, and constructing or converting a number into the form it has changes nothing.",
  ["inputs", "programs"], "all numbers whose squared magnitude is representable (any angle for polar to Cartesian), f32, f64 and all signed fixed point formats, every pair of raw patterns of the 8 bit formats; not the angle of the origin",
  TESTS + "a few points in a single format; no round trip over quadrants, axes and extremes.",
  [CART, POL, OPS, CT], [("to_polar, to_cartesian, abs", OPS), ("Mag, Arg, ToPolar, ToCartesian, NewFrom* impls", CART), ("the same", POL)], TABLE,
  "the accuracy of the underlying functions (C12, C15) is propagated; re*re+im*im must be representable")
p("C07", "Conjugates, neutral elements and comparison obey their laws",
  "Conjugation negates the imaginary part (or the angle) alone and is its own inverse; zero, one, default values and real numbers made complex are what they say; adding zero or multiplying by one returns the number and subtracting a number from itself gives zero. Addition and multiplication commute, conjugation distributes over sums and differences exactly and over products within rounding, z times its conjugate is real, and equality and ordering compare the real parts (magnitudes) first and the imaginary parts (angles) next.",
  ["inputs", "programs"], "all operands whose intermediate results are representable (finite for floats, not the minimum of a two's complement type), all signed types",
  TESTS + "laws over all values are not tested.",
  [CART, POL, OPS], [("Conj, MixedZero, MixedOne, MixedToComplex, Default, PartialEq, PartialOrd", CART), ("the same", POL)], "monitor of algebraic laws over every call, exact comparison, two instrumented builds",
  "exact for integers and fixed point sums, within rounding elsewhere")
p("C08", "Phase wrapping returns the equivalent phase in -pi to pi",
  "Wrapping any phase of any signed fixed point type returns the one value in [-pi, pi), with the type's own pi, which differs from the phase by a whole number of the type's own turns; for floats the result lies in [-pi, pi) and differs by whole turns within a few rounding errors of pi. Phases already in range are returned unchanged, and wrapping takes bounded time however large the phase is.",
  ["inputs"], "every raw pattern of 8 and 16 bit formats, all values of the wider ones and of floats (random, extremes, neighbours of multiples of pi)",
  TESTS + "a handful of phases within a few turns.",
  [TR, FX, FL, F32, F64], [("wrap_phase", TR), ("MixedWrapPhase impls", FX)], TABLE + ", CPU time watchdog",
  "fixed point results are compared exactly, with Euclidean remainder in 128 bit arithmetic")
p("C09", "Conversions between number types keep the value",
  "Converting between any supported types gives the same number whenever the target can hold it; floating point numbers round to the nearest fixed point value, fixed point numbers round down to integers and to the nearest float, and primitive types convert as by the language's numeric cast. Converting a real to a complex number gives a zero imaginary part (or angle), converting complex to complex converts both parts, and converting complex to real takes the real part or magnitude alone.",
  ["inputs", "programs"], "all pairs of a primitive type with every supported type in both directions, real, Cartesian and polar forms, all values representable in the target; every raw pattern of 8 and 16 bit sources",
  TESTS + "conversion has a handful of examples with small exact values.",
  [FX, INT, F32, F64, CART, POL], [("impl_mixed_num_conversion macros", FX), ("MixedNumConversion impls", CART)], TABLE,
  "the expected rounding is implemented independently in 128 bit integer arithmetic (harness conv.rs)")
p("C10", "Signs, absolute values, extremes and constants",
  "For every supported type, the sign is one for a value of zero or more and minus one below, the absolute value is the value without its sign, positivity and negativity of non-zero numbers are told apart, and zero, one, the largest and the smallest value are those of the type. Pi and two pi are within one quantum (fixed point, or the accuracy of a double where that is coarser) or correctly rounded (floats) in every type which can hold them.",
  ["inputs", "configurations"], "all 240 types; every raw pattern of the 8 and 16 bit types; the minimum of a two's complement type has no absolute value",
  TESTS + "the constants and signs of single types only.",
  [FX, INT, F32, F64, TR], [("MixedNum impls", FX), ("sign", TR)], TABLE, "exact")
p("C11", "Integer powers",
  "Raising a base to a non-negative integer power multiplies it with itself that often: exactly for integers, within the accumulated rounding of the multiplications for fixed point and floats, and anything to the power zero is one. A negative exponent gives the power of the reciprocal (for integers: truncated, so zero unless the base is one or minus one), and an integer power of a complex fixed point number has the power of the magnitude and the multiple of the angle.",
  ["inputs"], "all bases and exponents with a representable result (and reciprocal, intermediate angle and magnitude), all types, both entry points",
  TESTS + "one or two small positive powers.",
  [TR, FX, INT, F32, F64, OPS], [("powi", TR), ("complex powi", OPS), ("MixedPowi impls", FX)], TABLE,
  "tolerance: one quantum per multiplication, propagated")
p("C12", "Square roots",
  "The square root of every non-negative number of a float type is correctly rounded; in every fixed point format (signed and unsigned) it is within the accuracy documented for the table-seeded iteration, relative to the next power of two above the root, plus a few quanta; the configurable version keeps the documented accuracy for each iteration count. The root of zero is zero, of infinity infinity, and a negative argument of the fixed point and configurable versions is treated as its absolute value.",
  ["inputs", "configurations"], "every raw pattern of 8 and 16 bit formats, all magnitudes of the wider ones and of floats, iteration counts 1, 2, 3, 4, 6, 10",
  TESTS + "a few roots in three formats.",
  [SQ, FX, F32, F64], [("niirf, its table, scaling and iteration", SQ), ("MixedSqrt impls", FX)], TABLE,
  "relative accuracy per iteration count: 2.15e-2, 7.5e-4, 6e-5, 5e-6, 5e-8, 1e-9 (see DESIGN.md)")
p("C13", "Polynomial arctangents keep their documented accuracy everywhere",
  "The polynomial arctangents return, for every point other than the origin in every float and signed fixed point type, the angle of the point in the right quadrant within 0.0049 rad plus a few quanta, exactly 0, pi/2 or pi (to a quantum) on the axes, and 0 at the origin. This holds for arguments of any size and ratio.",
  ["inputs"], "every pair of raw patterns of the 8 bit formats, all values of the wider ones (not the minimum), all finite floats",
  TESTS + "a few points of order one.",
  [AT, FX, F32, F64], [("atan, atan2", AT), ("mixed_atan2_poly", FX)], TABLE, "the bound is the measured maximum of the polynomial, as documented by the repaired documentation")
p("C14", "Polynomial sine and cosine keep their documented accuracy",
  "The polynomial sine is within 4.3e-6 plus a few quanta of the sine for every angle between -pi and pi, and the polynomial cosine within the same (plus the rounding of the phase reduction) of the cosine for every angle to which pi/2 can be added, in every float and signed fixed point type able to hold the series' constants.",
  ["inputs"], "every raw pattern of 8 and 16 bit formats, all angles of the wider ones and of floats (|x| < 10^4 for floats)",
  TESTS + "a few angles.",
  [TR], [("sin, cos", TR)], TABLE, "interval oracle against the host's double precision sine and cosine")
p("C15", "Fixed point trigonometry and exponential",
  "In every signed fixed point format, sine, cosine, their joint form, arctangent, quadrant-aware arctangent, arcsine and arccosine, and the exponential are within a bound of a few quanta per fractional bit of the exact value (plus, for angles beyond pi, one quantum per whole turn; for the exponential, in proportion to its value and the number of factors). This holds over their whole domain: every angle, every ratio of arguments, arguments from -1 to 1, every exponent whose power is representable.",
  ["inputs"], "every raw pattern of 8 and 16 bit formats, every pair of the 8 bit formats for atan2, random values, landmarks and extremes of the wider ones; not the minimum for arctangents",
  TESTS + "a few arguments in one or two formats.",
  [FX, TR], [("mixed_sin/cos/sincos/atan/atan2/asin/acos/exp for fixed", FX)], TABLE, "error bounds calibrated on the repaired tree with margin; wide enough for reorderings of the arithmetic")
p("C16", "Elementary functions of floats are the named functions",
  "Every elementary function of f32 and f64 (sine, cosine, tangent, their inverses and hyperbolic forms, roots, exponentials, logarithms, powers, ceiling and floor) is within 4 units in the last place of the function it is named after, for every argument. Zeros, infinities, NaN and arguments outside the function's domain give the value (or NaN) that the function has there.",
  ["inputs"], "all arguments of f32 and f64 including subnormals, zeros, infinities, NaN; thorough: every one of the 2^32 f32 arguments of each one-argument function",
  TESTS + "one argument per function.",
  [FL, F32, F64], [("one-line forwards to libm", F32), ("the same", F64)], "differential monitor against the host's C library",
  "oracle: the host's libm in double precision")
p("C17", "Decibel conversions",
  "Magnitudes and powers convert to 20 and 10 times the decimal logarithm and back to the corresponding power of ten, within a few rounding errors, and both round trips return the number. Zero is minus infinity decibels, infinity stays infinity, and negative numbers are NaN.",
  ["inputs"], "all f32 and f64 arguments, special values included; thorough: every f32",
  TESTS + "two values.",
  [MT, F32, F64], [("DbMag, DbPow", MT)], TABLE, "oracle: the host's log10 and exp10")
p("C18", "Complex exponential",
  "The exponential of a complex number has magnitude exp(re) and angle im: its parts are exp(re)cos(im) and exp(re)sin(im) within the accuracy of the type's exponential, cosine and sine, and the exponential of the conjugate is the conjugate of the exponential. This holds for every signed fixed point and float type whenever exp(re) is representable.",
  ["inputs"], "all numbers with representable exp(re); every pair of raw patterns of the 8 bit formats; floats: |im| < 10^6",
  TESTS + "one value.",
  [CART, FX], [("MixedExp for Cartesian", CART)], TABLE, "accuracy of C15/C16 propagated")
p("C19", "Text of complex numbers",
  "A Cartesian number is written as its real part, a sign, its imaginary part and the letter i, each part being the number type's own text of the absolute value in the requested notation (decimal, exponent, hexadecimal, octal, binary) with the requested precision, plus sign and radix prefix; with the standard library enabled it is padded on the left to the requested width. The decimal text reads back as the same number, a polar number is written as magnitude, angle sign and angle, and an error of the writer is reported with nothing written after it.",
  ["inputs", "configurations"], "all numbers (no negative zeros; the minimum of signed types is a known finding), all seven notations, all combinations of plus, alternate, precision and width, all types",
  TESTS + "a handful of texts.",
  [NC, CART, POL], [("write_complex macro and the seven impls", NC), ("Display for Polar", POL)], "monitor comparing texts, reading them back, and injecting write errors at every position",
  "width padding is judged in the build with the std feature; the expected text is put together from the element type's own texts")
p("C20", "Results depend on the arguments alone",
  "Every function of the library returns the same bits for the same arguments, whatever was called before, on whichever thread, and next to whatever other calls. It leaves its arguments unchanged, uses no heap memory, and builds with and without overflow checks agree on every result that is representable.",
  ["histories", "schedules", "inputs", "configurations"], "repeated calls, shuffled histories of thousands of calls, four threads making the same calls at once, two build profiles, an allocation counter on every call",
  "The tests call each function once on one thread in one profile.",
  ["src/lib.rs", CART, POL, OPS, FX, FL, INT, TR, AT, SQ], [("functions are pure; no statics, no allocation (no_std)", "src/")], "offline comparison of recorded result digests across repetitions, histories, threads and build profiles; allocation hook",
  "histories and schedules are sampled")
p("C21", "Every call returns",
  "Every function of the library returns for every argument of every supported type, extremes, NaN and infinities included, within a bounded time. Floating point functions never panic, and integer and fixed point functions panic only to report an arithmetic result that is not representable (overflow or division by zero) or a scalar that cannot be converted.",
  ["inputs"], "any bit patterns as arguments of every entry point of every type; every raw pattern of 8 and 16 bit formats for functions of one number; exponents and iteration counts up to 1000",
  TESTS + "no extremes.",
  [CART, POL, OPS, FX, FL, INT, TR, AT, SQ], [("loops over scalings, turns, exponents and iterations", TR)], "CPU time watchdog and panic monitor on every call",
  "limit: 80 ms of CPU time of the calling thread; ordinary calls take microseconds")
p("C22", "Generic functions serve user-defined types alike",
  "The library's generic functions and complex types, used with a user-defined number type that implements the library's traits with the arithmetic of a supported type, give bit for bit the results of the supported type, or both report that a result is not representable. The number of operations they ask of the type is bounded by a constant, plus a multiple of the number of bits of the type and of the exponent or iteration count.",
  ["programs", "inputs"], "16 underlying types, all generic entry points, arbitrary arguments",
  "No test uses a type of its own.",
  [CART, POL, OPS, TR, AT, SQ, "src/traits.rs", MT, CT], [("generic bounds of functions and impls", TR)], "differential monitor with an instrumented number type that counts every operation",
  "limit: 400 + 24 per bit (960 for floats) + 64 per unit of exponent")
p("C23", "No undefined behaviour",
  "Whatever arguments it is called with, and from however many threads at once on the same data, no function of the library reads or writes memory it does not own, overflows the stack, races, or otherwise has undefined behaviour.",
  ["inputs", "schedules"], "arbitrary arguments of every entry point on 27 types, alone and from four threads at once",
  "The tests run without sanitizers.",
  ["src/lib.rs", CART, POL, OPS, FX, TR, AT, SQ], [("safe Rust throughout; the table lookup of the square root is bounds checked", SQ)], "AddressSanitizer, ThreadSanitizer (instrumented std) and the Miri interpreter over one workload",
  "Miri explores a few arguments per entry point, the sanitizers hundreds of thousands per type")

NA = []
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]}, "why_tests_cant": q["why"],
                "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": b} for a, b in q["mech"]], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --setup",
         "checks": [{"property": q["id"], "quick_cmd": f"python3 check.py {q['id']}", "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {q['id']}", "evidence_file": f"evidence/{q['id']}.json",
                     "technique": "runtime monitoring: " + q["technique"], "level": "exploration", "level_note": "Exploration: observed executions only. " + q["note"]} for q in P],
         "not_applicable": NA, "notes": "No hooks in /repo: everything the monitors need is public. Every check builds the harness against /repo's working tree."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    for q in P:
        assert len(q["title"]) <= 80, q["id"]
