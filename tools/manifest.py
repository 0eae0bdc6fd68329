#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json
from pathlib import Path
V = Path(__file__).resolve().parent.parent
P = []


def p(id, title, statement, text, why, files, mech, note, tech=None, over=("inputs",), state=None):
    P.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=files,
                  mech=[{"name": a, "where": b} for a, b in mech], note=note, state=state,
                  tech=tech or "TLA+ specification checked with TLC; TLC-generated calls replayed on the library, "
                               "recorded trace validated by TLC"))


SAMPLED = ("Design part: TLC enumerates the whole 8-bit (12/13-bit, thorough 16-bit) model. Conformance part: 8-bit operands "
           "exhaustively where unary, wider operands by structured and seeded samples, every recorded result decided by TLC "
           "against a rigorous enclosure of the exact value. ")
TOL = ("Tolerance: the specification grants the working precision of the type (binary64 for linear types up to 32 bits, "
       "extended otherwise) before rounding, so a result is pinned to one takum except within about 2^-50 (2^-61) of a tie.")
W = "for every operand of all eight types"

p("C01", "Linear takums convert to IEEE floats correctly rounded",
  "Converting a linear takum to float, double or extended float yields the IEEE number nearest to the takum's exact value "
  "(ties to even, infinity and zero/subnormal exactly where IEEE rounding gives them), and NaN exactly for NaR.",
  "every takum_linear8/16/32/64 bit pattern and each of the three float formats",
  "The tests never call to_float32 and use to_float64 / to_extended_float only inside their own reference, so an error there "
  "cancels out; 2^32 and 2^64 patterns cannot be listed.",
  ["src/codec.c", "src/conversion.c"], [("decode and ldexp", "src/conversion.c to_float*; src/codec.c decode")],
  SAMPLED + "Exact: no tolerance.")
p("C02", "Logarithmic takums convert to IEEE floats accurately",
  "Converting a logarithmic takum to float, double or extended float yields (-1)^S sqrt(e)^l within a relative error of "
  "(|l|+4) units in the last place of that format, exactly 0 for zero, exactly +-1 for l = 0, infinity or underflow only "
  "where that range lies outside the format, and NaN exactly for NaR.",
  "every takum8/16/32/64 bit pattern and each of the three float formats",
  "The tests use these conversions only as their own reference; to_float32 is never called.",
  ["src/codec.c", "src/conversion.c"], [("codec_takum*_to_l and exponential", "src/codec.c, src/conversion.c")],
  SAMPLED + "Accuracy contract as stated; the exponential is enclosed to 140 bits.")
p("C03", "IEEE floats convert to linear takums correctly rounded",
  "Converting a float, double or extended float to a linear takum yields the takum nearest on the format's own bit-string "
  "scale (ties to the even bit string), saturates to the largest or smallest magnitude instead of overflowing or underflowing, "
  "and maps NaN and infinities to NaR and both zeros to 0.",
  "every float32, float64 and extended float bit pattern, including subnormals, into the four linear types",
  "The tests never convert from float32 and reach the other conversions with results of their own reference; rounding ties "
  "and saturation boundaries are a vanishing fraction of the inputs.",
  ["src/conversion.c", "src/codec.c"], [("encode, round, saturate", "src/codec.c codec_takum_linear*_from_s_and_c_and_m... ; src/conversion.c")],
  SAMPLED + "Exact for float and double sources; from extended floats the specification grants the 64-bit rounding of c+m.")
p("C04", "IEEE floats convert to logarithmic takums correctly rounded",
  "Converting a float, double or extended float x to a logarithmic takum yields the takum nearest to 2 ln|x| on the format's "
  "bit-string scale with the sign of x, up to the precision of the logarithm used (2^-24 from float to 8 bits, 2^-52 from float to 16 and 32, otherwise 2^-60), "
  "saturates instead of overflowing or underflowing, and maps NaN and infinities to NaR and both zeros to 0.",
  "every float32, float64 and extended float bit pattern, including subnormals, into the four logarithmic types",
  "The tests never convert from float32 and never compare a conversion with an independent logarithm.",
  ["src/conversion.c", "src/codec.c"], [("2*log and codec_takum*_from_s_and_l", "src/conversion.c, src/codec.c")],
  SAMPLED + TOL)
p("C05", "Width conversions round and saturate exactly",
  "Within a family, widening a takum preserves its value exactly and narrowing rounds it to the nearest takum on the bit-string "
  "scale (ties to even), never turning a non-zero number into 0 or NaR; 0 and NaR are preserved.",
  "every operand of all 24 same-family conversions",
  "No existing test calls any takum-to-takum conversion.",
  ["src/conversion.c", "src/util.h"], [("round-off and saturation of bit strings", "src/conversion.c takum*_from_takum*")],
  SAMPLED + "Exact: no tolerance; 16-bit sources are enumerated completely at the thorough tier, 8-bit always.")
p("C06", "Conversions between the families preserve value and saturate",
  "Converting between logarithmic and linear takums of any widths yields the takum of the target type nearest to the source's "
  "exact value, up to the working precision, saturating instead of overflowing or underflowing; 0, +-1 and NaR map to "
  "themselves.",
  "every operand of all 32 cross-family conversions",
  "No existing test calls any takum-to-takum conversion.",
  ["src/conversion.c", "src/codec.c"], [("conversion by way of l or float", "src/conversion.c takum_linear*_from_takum*, takum*_from_takum_linear*")],
  SAMPLED + TOL)
p("C07", "Round trips through wider formats lose nothing",
  "Converting any takum to a wider takum of either family, or to a sufficiently precise IEEE float (float for up to 16 bits, "
  "double for up to 32, extended for all), and back returns the same takum, unless the intermediate format saturates or "
  "leaves its normal range.",
  "every operand and every such chain of two conversions",
  "A property of two calls for all values; the tests never chain two conversions and compare bits.",
  ["src/conversion.c", "src/codec.c"], [("both directions of every conversion", "src/conversion.c")],
  "Histories of two calls, recorded and validated by TLC against the law; the format part of the design is checked "
  "exhaustively. 8-bit operands exhaustive by sampling density, wider ones sampled.", over=("inputs", "histories"))
p("C08", "Bit-string order is numerical order",
  "For any two takums of one type a < b as integers (NaR being the smallest), the numbers they denote are ordered the same "
  "way: conversion to extended float is strictly increasing, and conversion to every other float or takum type, and from "
  "every float type, is non-decreasing.",
  "every ordered pair of operands, adjacent ones in particular, of all conversions",
  "Needs pairs of neighbouring operands; the tests look at single operands with a tolerance of one unit.",
  ["src/conversion.c", "src/codec.c"], [("encoding order", "src/codec.c")],
  "Histories of two calls at adjacent and near operands; the order of the format itself is model-checked for every 8-, 12- "
  "and 13-bit (thorough: 16-bit) takum.", over=("inputs", "histories"))
p("C09", "NaR propagates and marks exactly the undefined results",
  "Every function returns NaR (or NaN) whenever an operand is NaR or lies outside the function's real domain - division by "
  "zero, even roots and logarithms of negative numbers, poles and the like - and never returns NaR for an operand inside the "
  "domain, however large the result.",
  "every operand or operand pair of every public function of all eight types",
  "Domain edges are single values among 2^32 or 2^64; the tests compare with a reference that shares the library's own "
  "case analysis.",
  ["src/*.c"], [("special-case analysis in every function", "src/*.c")],
  SAMPLED + "Only the NaR / not-NaR projection of the specification is judged here. Known findings: power with an IEEE special "
  "case, f(pi x) at negative exact points, 64-bit arcoth next to +-1.")
p("C10", "Results saturate and never vanish",
  "No function or conversion turns a non-zero real result into 0, NaR or a number of the other sign: results beyond the range "
  "become the largest, results below it the smallest magnitude of the right sign.",
  "every operand or operand pair of arithmetic, exponential, hyperbolic and conversion functions, overflow and underflow in particular",
  "Overflow and underflow regions at 32 and 64 bits are hit by a pinned sample only, with a tolerance of one unit that "
  "includes 0 and NaR.",
  ["src/*.c"], [("saturation", "src/codec.c, src/util.h, src/conversion.c, src/multiplication.c, src/division.c, src/integer_power.c")],
  SAMPLED + "Only the zero / sign / saturation projection of the specification is judged here.")
p("C11", "Linear takum arithmetic is correctly rounded",
  "Sum, difference, product, quotient, reciprocal, square root and hypotenuse of linear takums are the exact real result "
  "rounded to the nearest takum of the type, up to the working precision of the type.",
  "every operand pair of the four linear types, cancellation and huge exponent differences in particular",
  "16-bit pairs are already 2^32; the tests use a pinned sample, a tolerance of one unit, and a reference built on the "
  "library's own conversions.",
  ["src/addition.c", "src/subtraction.c", "src/multiplication.c", "src/division.c", "src/inversion.c", "src/square_root.c",
   "src/hypotenuse.c"], [("computation in float64 / extended float", "src/<function>.c")], SAMPLED + TOL)
p("C12", "Logarithmic products, quotients and square roots are exact in l",
  "Product, quotient, reciprocal and square root of logarithmic takums add, subtract, negate or halve the logarithmic value "
  "exactly and round once to the nearest takum with the right sign (64-bit products and quotients may round the sum to an "
  "extended float first); reciprocals are exact.",
  "every operand pair of the four logarithmic types",
  "16-bit pairs are already 2^32; the tests allow one unit.",
  ["src/multiplication.c", "src/division.c", "src/inversion.c", "src/square_root.c"], [("log-domain arithmetic", "src/<function>.c")],
  SAMPLED + "Exact up to 32 bits.")
p("C13", "Logarithmic sums and differences are accurate",
  "Sum, difference and hypotenuse of logarithmic takums are the exact real result of the operands (each known to extended "
  "precision) rounded to the nearest takum; x - x is exactly 0.",
  "every operand pair of the four logarithmic types",
  "16-bit pairs are already 2^32; the tests allow one unit against a reference with the same structure.",
  ["src/addition.c", "src/subtraction.c", "src/hypotenuse.c"], [("computation in extended float", "src/<function>.c")], SAMPLED + TOL)
p("C14", "Powers, integer powers and roots are accurate, with the right sign",
  "power, integer_power and root return the real power or root rounded to the nearest takum up to the working precision, "
  "negative bases included (sign by the parity of the exponent, NaR where no real value exists), for every 64-bit "
  "integer exponent.",
  W + " and every exponent, int64 minimum and maximum included",
  "The tests use only the exponents -100, -10, -1, 0, 1, 10, 100.",
  ["src/power.c", "src/integer_power.c", "src/root.c"], [("powl, log-domain scaling", "src/power.c, src/integer_power.c, src/root.c")],
  SAMPLED + TOL + " Known finding: power(NaR,0), power(1,NaR) and power(0,0) return 1.")
p("C15", "Exponential functions are accurate",
  "exp, 2^x, 10^x and their minus-one variants return the exact value rounded to the nearest takum up to the working "
  "precision (2^x-1 and 10^x-1 as a difference of extended floats), saturating at both ends.",
  W, "32- and 64-bit operands are sampled by the tests with a one-unit tolerance against a reference built on the library's "
  "own conversions.", ["src/exp.c", "src/2_raised.c", "src/10_raised.c"], [("expl, exp2l, powl", "src/exp.c, src/2_raised.c, src/10_raised.c")],
  SAMPLED + TOL)
p("C16", "Logarithms are accurate",
  "ln, lb, lg and their one-plus variants return the exact value rounded to the nearest takum up to the working precision, "
  "0 exactly at 1 (at 0 for the one-plus variants) and NaR outside the domain.",
  W, "As for the exponentials.", ["src/ln.c", "src/lb.c", "src/lg.c"], [("logl, log1pl and scaling", "src/ln.c, src/lb.c, src/lg.c")],
  SAMPLED + TOL)
p("C17", "Trigonometric functions are accurate",
  "sin, cos, tan, sec, csc and cot return the exact value rounded to the nearest takum up to the working precision of the "
  "argument and result, for arguments of any size; csc and cot are NaR at 0.",
  W, "As for the exponentials; large arguments and neighbourhoods of multiples of pi are rare in a random sample.",
  ["src/sin.c", "src/cos.c", "src/tan.c", "src/sec.c", "src/csc.c", "src/cot.c"], [("sinl, cosl, tanl", "src/<function>.c")],
  SAMPLED + TOL)
p("C18", "Inverse trigonometric functions are accurate and in range",
  "arcsin, arccos, arctan, arcsec, arccsc, arccot, arctan2 and their over-pi variants return the exact principal value rounded "
  "to the nearest takum up to the working precision, with the right quadrant, and NaR outside the domain.",
  W, "As for the exponentials; the quadrant and axis cases of arctan2 are single points.",
  ["src/arcsin.c", "src/arccos.c", "src/arctan.c", "src/arcsec.c", "src/arccsc.c", "src/arccot.c", "src/arctan2.c"],
  [("asinl, acosl, atanl, atan2l", "src/<function>.c")], SAMPLED + TOL)
p("C19", "Functions of pi times x are exact at the exact points",
  "sin, cos, tan, sec, csc and cot of pi x are exactly 0, +-1 or NaR where x is an integer or half-integer, and elsewhere the "
  "exact value rounded to the nearest takum up to the working precision of pi x.",
  W + ", integers and half-integers of any size in particular",
  "Integers and half-integers are a vanishing share of a random sample, and the reference has the same case analysis.",
  ["src/sin.c", "src/cos.c", "src/tan.c", "src/sec.c", "src/csc.c", "src/cot.c"], [("exact points by fmodl, then PI * x", "src/<function>.c *_pi_times")],
  SAMPLED + TOL + " Known finding: negative exact points.")
p("C20", "Hyperbolic functions are accurate",
  "sinh, cosh, tanh, sech, csch and coth return the exact value rounded to the nearest takum up to the working precision, "
  "saturating where they grow or vanish; csch and coth are NaR at 0.",
  W, "As for the exponentials.", ["src/sinh.c", "src/cosh.c", "src/tanh.c", "src/sech.c", "src/csch.c", "src/coth.c"],
  [("sinhl, coshl, tanhl", "src/<function>.c")], SAMPLED + TOL)
p("C21", "Inverse hyperbolic functions are accurate",
  "arsinh, arcosh, artanh, arsech, arcsch and arcoth return the exact value rounded to the nearest takum up to the working "
  "precision, and NaR outside the domain (64-bit arcsch and arcoth to the precision of a double).",
  W, "As for the exponentials.", ["src/arsinh.c", "src/arcosh.c", "src/artanh.c", "src/arsech.c", "src/arcsch.c", "src/arcoth.c"],
  [("asinhl, acoshl, atanhl", "src/<function>.c")], SAMPLED + TOL + " Known finding: 64-bit arcsch and arcoth.")
p("C22", "Sign, absolute value and precision are exact",
  "sign returns -1, 0 or 1, absolute the takum of the same magnitude without sign, both NaR for NaR; precision returns the "
  "number of mantissa bits of the bit string, for 0 and NaR that of the format's least precise numbers.",
  W, "32- and 64-bit operands are sampled; precision is not compared with an independent reading of the bit string.",
  ["src/sign.c", "src/absolute.c", "src/precision.c"], [("integer arithmetic on the bit string", "src/sign.c, src/absolute.c, src/precision.c")],
  SAMPLED + "Exact: no tolerance.")
p("C23", "Odd, even and commutative functions are so bit for bit",
  "f(-x) = -f(x) for odd and f(-x) = f(x) for even functions and for conversions, products, quotients, odd powers and roots; "
  "sums, products and hypotenuses commute, a - b = -(b - a) = a + (-b): bit for bit, except for functions of 64-bit "
  "logarithmic takums whose result is rounded through an extended logarithm (there up to one unit), and f(pi x) at exact points or of logarithmic takums.",
  W + " and operand pairs", "A relation between calls for all operands; the tests look at single calls with a tolerance.",
  ["src/*.c"], [("two's complement negation, sign-symmetric computation", "src/*.c")],
  "Histories of two calls recorded on the library and validated by TLC against the law; the specification itself is checked "
  "for the same symmetry on all 8-bit operands by the other checks.", over=("inputs", "histories"))
p("C24", "Algebraic identities hold bit for bit",
  "x - x = 0, x / x = 1, x * 1 = x / 1 = x + 0 = x - 0 = x, x * -1 = x / -1 = -x, x * 0 = 0 / x = 0, x^1 = root(x, 1) = "
  "power(x, 1) = x, x^0 = 1 for x other than 0, powers and roots of 1 are 1, hypotenuse(x, 0) = |x| and sign(x) * |x| = x for "
  "all types; for linear takums also x + x = 2 * x; for logarithmic takums also x^2 = x * x, x^-1 = root(x, -1) = 1/x, "
  "root(x, 2) = sqrt(x), x / y = x * (1 / y) and 1/(1/x) = x. (For operands where the right-hand side is defined.)",
  W + " and operand pairs", "Relations between several calls for all operands; the tests look at single calls with a tolerance.",
  ["src/*.c"], [("exactness of the log-domain and identity cases", "src/*.c")],
  "Histories of one to three calls (results fed into later calls) recorded on the library and validated by TLC.",
  over=("inputs", "histories"))
EXTRA = V / "tools" / "manifest_extra.py"
if EXTRA.exists():
    exec(EXTRA.read_text())

(V / "properties.jsonl").write_text("".join(json.dumps(
    {"id": x["id"], "title": x["title"], "statement": x["statement"],
     "quantifier": {"over": x["over"], "text": x["text"]}, "why_tests_cant": x["why"],
     "anchors": {"files": x["files"], **({"state": x["state"]} if x["state"] else {}), "mechanism": x["mech"],
                 "observe_at": ["public functions of takum.h"] if "example/calculator.c" not in x["files"]
                 else ["standard input and output of example/calculator"],
                 "hook_needed": None}}) + "\n" for x in P))
(V / "MANIFEST.json").write_text(json.dumps({
    "version": 1,
    "setup_cmd": "python3 run/setup.py",
    "checks": [{"property": x["id"], "quick_cmd": "python3 run/check.py %s --tier quick" % x["id"],
                "thorough_cmd": "python3 run/check.py %s --tier thorough" % x["id"],
                "technique": x["tech"], "level": "model_checking", "level_note": x["note"]} for x in P],
    "not_applicable": [],
    "notes": "Specification in TLA+ (spec/), checked with TLC; see DESIGN.md. No hooks in /repo are needed: the public "
             "functions' arguments and results are the whole observable state."}, indent=1) + "\n")
assert all(len(x["title"]) <= 80 for x in P), [x["title"] for x in P if len(x["title"]) > 80]
print(len(P), "properties")
