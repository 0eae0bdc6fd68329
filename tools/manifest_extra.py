p("C25", "Named constants are the nearest takums",
  "Every constant of takum.h - multiples and fractions of pi, gamma, phi, logarithms, square roots, 1, NaR, the smallest and "
  "largest positive number - is, in each of the eight types, the takum nearest the number it is named after.",
  "all 39 constants in all eight types",
  "The tests compare the constants with the library's own conversion of a long double, so both can be wrong together, and two are.",
  ["takum.h"], [("integer literals", "takum.h")],
  "All 312 constants, against enclosures of 140 bits computed in the specification. Known finding: TAKUM64_6_PI and "
  "TAKUM64_6_PI_OVER_5 are one unit off.", tech="TLA+ specification of the constants' exact values checked with TLC against "
  "the values compiled from takum.h")
p("C26", "The library has no state: calls are independent and reentrant",
  "A call's result depends on nothing but its operands: it is the same as the first call of a fresh process, after any other "
  "calls of any functions and types, and while other threads call the library, and no call changes the floating-point control "
  "state (rounding mode, precision, exception masks).",
  "every sequence of calls and every interleaving of threads",
  "Depends on histories and schedules; the tests make each call once, in one order per function, and never look at the "
  "floating-point environment.",
  ["src/*.c"], [("no static or thread-shared data, no rounding mode changes", "src/*.c")],
  "Session.tla specifies the client's memory of results; MC_Session checks exhaustively that it never rejects a stateless library "
  "and does reject a caching or racing one. Conformance: TLC-generated pools of related and coverage-guided calls per function and "
  "type, and mixed ones; each call is made in a fresh process (under four rounding modes), in a random order in one process (stack "
  "scribbled), by eight threads at once, and as the first calls of threads released together; the union of all pools then as millions of "
  "calls in one process and in long rows of one function. The recorded sessions are validated by TLC. Thread schedules are those of "
  "the operating system.",
  tech="TLA+ session specification (client memo) model-checked with TLC; TLC-generated sessions run in fresh processes, in sequence "
       "and in threads; recorded traces validated by TLC", over=("histories", "schedules", "inputs"))
p("C27", "The calculator computes what its input says",
  "For every session of lines, example/calculator evaluates each line as a postfix expression over literals (decimal, octal, "
  "hexadecimal integers and decimal numbers), registers a-z and all operators in the current takum type: the result is what the "
  "library functions of that type return for the operands converted to it, integers stay integers only while they are exactly "
  "known, each successful line prints and writes the next register exactly once, type changes last, and a line that underflows, "
  "leaves more than one number or contains an unknown token prints its message and changes no register.",
  "every sequence of input lines",
  "Depends on the history of the session (registers, type, the integer/takum duality of operands); the calculator has no tests.",
  ["example/calculator.c"], [("stack machine, operator table and register file", "example/calculator.c"),
                             ("input lines", "example/util.c")],
  "Calculator.tla is the calculator as a state machine reading tokens, with the library as an uninterpreted function that TLC "
  "evaluates by calling the library built from /repo. MC_Calc model-checks line privacy, one register per printed line and stack "
  "bounds for all small sessions. TLC generates sessions (random expressions with every kind of error, very long lines, and tours "
  "of every operator in every type), the real program runs them, and TLC validates its output token by token. Printed values are "
  "compared to the six digits shown. Known finding: calculator-integers (precision operator, integers below -2^63).",
  tech="TLA+ state machine of the calculator model-checked with TLC; TLC-generated sessions replayed on the real program; its "
       "output validated by TLC against the machine", over=("histories", "inputs"), state=None)
p("C28", "Every call is defined and does not depend on the build",
  "No call, whatever its operands, executes undefined behaviour (signed overflow, out-of-range shifts and conversions, reads "
  "outside an object or of uninitialised memory), and the result does not depend on the compiler, its optimisation level or what "
  "the memory held before: every build of the sources computes the same function.",
  W, "Undefined behaviour is invisible in the one build that is tested, at the few operands it is tested with.",
  ["src/*.c"], [("casts, shifts and unions of the codec", "src/codec.c, src/util.c"), ("integer arithmetic on takums", "src/*.c")],
  "Builds.tla: an observation is a call with the results of all builds, which have to be equal and present. Seven builds (gcc -Os "
  "as shipped, -O0 with stack memory pre-filled, -O3, clang -O2 and -O0, undefined-behaviour traps, address sanitizer) replay the "
  "calls TLC generates and their coverage-guided variations for every function of every type. Fixed: absolute(NaR) negated the "
  "least integer in four types.",
  tech="TLC-generated calls replayed on seven builds including sanitizers, recorded observations validated by TLC against the "
       "TLA+ specification that all builds are one function", state=None)
p("C29", "Monotone functions are monotone",
  "Where a function is monotone its rounded version is too: for operands x < y the results of exponentials, logarithms, roots, "
  "inverse trigonometric, hyperbolic and inverse hyperbolic functions are in the function's order (on each side of a pole), and "
  "sums, differences, products, quotients and hypotenuses move in the direction of the operand that moves - never by a step the "
  "wrong way. For types up to 32 bits; square root, inversion, products and quotients also with 64, sums for takum_linear64.",
  "for every pair of operands of all eight types",
  "A relation between results at neighbouring operands, violated by errors smaller than any tolerance a test can use.",
  ["src/*.c"], [("evaluation in a wider format and one rounding", "src/util.h, src/*.c")],
  "Histories of two calls with operands one unit or a power of two of units apart, at all structured and coverage-guided places.",
  over=("inputs", "histories"))
