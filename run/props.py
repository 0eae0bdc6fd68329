"""What each check explores.  A part is
   ("mc", module, consts, invariants)      exhaustive design check
   ("fns", plan)                           8-bit exhaustive check of the functions' specification
   ("calls", plan)                         generated calls, replayed and validated
   ("laws", plan)                          generated histories, replayed and validated
A plan entry of calls is (op, family, width, count)."""
import builds, calc, laws, sessions
from laws import T, TO, FROM, convs

TRIG = ["sin", "cos", "tan", "sec", "csc", "cot"]
PITRIG = [x + "_pi_times" for x in TRIG]
ARC = ["arcsin", "arccos", "arctan", "arcsec", "arccsc", "arccot"]
ARCPI = [x + "_over_pi" for x in ARC]
HYP = ["sinh", "cosh", "tanh", "sech", "csch", "coth"]
AR = ["arsinh", "arcosh", "artanh", "arsech", "arcsch", "arcoth"]
EXP = ["exp", "2_raised", "10_raised", "exp_minus_1", "2_raised_minus_1", "10_raised_minus_1"]
LOG = ["ln", "lb", "lg", "ln_1_plus", "lb_1_plus", "lg_1_plus"]
ARITH = ["addition", "subtraction", "multiplication", "division"]
BINARY = ARITH + ["power", "hypotenuse", "arctan2", "arctan2_over_pi", "integer_power", "root"]
CONSTANTS = """NAR POSITIVE_MINIMUM POSITIVE_MAXIMUM ONE 2_PI 2_PI_OVER_3 2_PI_OVER_5 3_PI 3_PI_OVER_2
    3_PI_OVER_4 3_PI_OVER_5 4_PI 4_PI_OVER_3 4_PI_OVER_5 5_PI 5_PI_OVER_2 5_PI_OVER_3 5_PI_OVER_4
    5_PI_OVER_6 6_PI 6_PI_OVER_5 GAMMA LB_10 LB_E LG_2 LG_E LN_10
    LN_2 PHI PI PI_OVER_2 PI_OVER_3 PI_OVER_4 PI_OVER_5 PI_OVER_6 SQUARE_ROOT_2
    SQUARE_ROOT_3 SQUARE_ROOT_5 SQUARE_ROOT_6""".split()
MCF = ["NegationNegates", "OrderIsIntegerOrder", "RoundingIsIdentity", "ReductionIsRounding",
       "ExpansionIsExact", "FieldRanges", "Extremes"]


def ops(names, fams=(0, 1), w={8: 256, 16: 2000, 32: 2500, 64: 2500}, k=1):
    # all 8-bit operands always, all 16-bit ones in the thorough tier
    c = {8: 256, 16: int(w[16] * k) if k < 7 else max(65536, int(w[16] * k)), 32: int(w[32] * k), 64: int(w[64] * k)}
    return [(o, f, n, c[n]) for o in names for f in fams for n in (8, 16, 32, 64)]


def binary(names, fams=(0, 1), k=1):
    return [(o, f, n, int(c * k)) for o in names for f in fams
            for n, c in ((8, 3000), (16, 4000), (32, 5000), (64, 5000))]


def same_family(k):
    return [(c, f, n, k) for f, n in T for c, g, _ in convs(f, n) if g == f]


def cross_family(k):
    return [(c, f, n, k) for f, n in T for c, g, _ in convs(f, n) if g != f]


def nar_domain(k):
    return ops(["sign", "absolute", "inversion", "square_root"] + EXP + LOG + TRIG + PITRIG + ARC + ARCPI
               + HYP + AR, k=k)


def everything(k):
    return (nar_domain(0.15 * k) + ops(["precision"], k=0.15 * k) + binary(BINARY, k=0.15 * k)
            + [(o, f, n, 600 * k) for o in TO + FROM for f, n in T]
            + [(c, f, n, 400 * k) for f, n in T for c, _, _ in convs(f, n)])


def parts(pid, tier):
    q = tier == "quick"
    s = 1 if q else 25
    mcf = lambda *i: ("mc", "MC_Format", {"MaxWidth": 13 if q else 16}, list(i))
    fns = lambda names, fams=(0, 1), step=(7 if q else 1): ("fns", [(o, f) for o in names for f in fams], step)
    return {
        "C01": lambda: [mcf("NegationNegates", "FieldRanges"),
                        ("calls", ops(TO, (1,), k=5 * s))],
        "C02": lambda: [mcf("NegationNegates", "FieldRanges"),
                        ("calls", ops(TO, (0,), k=5 * s))],
        "C03": lambda: [mcf("RoundingIsIdentity", "ReductionIsRounding"),
                        ("calls", [(o, 1, n, 15000 * s) for o in FROM for n in (8, 16, 32, 64)])],
        "C04": lambda: [mcf("RoundingIsIdentity", "ReductionIsRounding"),
                        ("calls", [(o, 0, n, 12000 * s) for o in FROM for n in (8, 16, 32, 64)])],
        "C05": lambda: [mcf("ReductionIsRounding", "ExpansionIsExact", "Extremes"),
                        ("calls", same_family(65536 if not q else 20000))],
        "C06": lambda: [mcf("RoundingIsIdentity", "NegationNegates"),
                        ("calls", cross_family(65536 * 2 if not q else 5000))],
        "C07": lambda: [mcf("RoundingIsIdentity", "ExpansionIsExact"),
                        ("laws", laws.roundtrip(4000 * s))],
        "C08": lambda: [mcf("NegationNegates", "OrderIsIntegerOrder", "Extremes"),
                        ("laws", laws.order(2500 * s))],
        "C09": lambda: [("calls", nar_domain(0.3 * s) + binary(BINARY, k=0.45 * s)
                         + [(o, f, n, 1500 * s) for o in TO + FROM for f, n in T]
                         + [(c, f, n, 700 * s) for f, n in T for c, _, _ in convs(f, n)], "nar")],
        "C10": lambda: [("calls", ops(["inversion", "square_root"] + EXP + ["sinh", "cosh", "csch", "sech", "coth", "tanh",
                                      "tan", "csc", "arctan"], k=0.3 * s)
                         + binary(ARITH + ["power", "hypotenuse", "integer_power", "root"], k=0.7 * s)
                         + [(o, f, n, 3000 * s) for o in FROM for f, n in T]
                         + [(c, f, n, 900 * s) for f, n in T for c, _, _ in convs(f, n)], "sat")],
        "C11": lambda: [fns(ARITH + ["inversion", "square_root", "hypotenuse"], (1,)),
                        ("calls", binary(ARITH + ["hypotenuse"], (1,), 2 * s)
                         + ops(["inversion", "square_root"], (1,), k=3 * s))],
        "C12": lambda: [fns(["multiplication", "division", "inversion", "square_root"], (0,)),
                        ("calls", binary(["multiplication", "division"], (0,), 3 * s)
                         + ops(["inversion", "square_root"], (0,), k=4 * s))],
        "C13": lambda: [fns(["addition", "subtraction", "hypotenuse"], (0,)),
                        ("calls", binary(["addition", "subtraction", "hypotenuse"], (0,), 3 * s))],
        "C14": lambda: [fns(["power", "integer_power", "root"], step=(11 if q else 1)),
                        ("calls", binary(["power", "integer_power", "root"], k=1.5 * s))],
        "C15": lambda: [fns(EXP), ("calls", ops(EXP, k=1.5 * s))],
        "C16": lambda: [fns(LOG), ("calls", ops(LOG, k=1.5 * s))],
        "C17": lambda: [fns(TRIG), ("calls", ops(TRIG, k=1.5 * s))],
        "C18": lambda: [fns(ARC + ARCPI + ["arctan2"]),
                        ("calls", ops(ARC + ARCPI, k=0.8 * s) + binary(["arctan2", "arctan2_over_pi"], k=0.7 * s))],
        "C19": lambda: [fns(PITRIG), ("calls", ops(PITRIG, k=1.5 * s))],
        "C20": lambda: [fns(HYP), ("calls", ops(HYP, k=1.5 * s))],
        "C21": lambda: [fns(AR), ("calls", ops(AR, k=1.5 * s))],
        "C22": lambda: [mcf("FieldRanges", "NegationNegates"),
                        ("calls", ops(["sign", "absolute", "precision"], k=6 * s))],
        "C23": lambda: [("laws", laws.symmetry(400 * s))],
        "C24": lambda: [("laws", laws.identities(1200 * s))],
        "C25": lambda: [("calls", [("const_" + c, f, n, 1) for c in CONSTANTS for f, n in T])],
        "C26": lambda: [],
        "C27": lambda: [],
        "C28": lambda: [],
        "C29": lambda: [("laws", laws.monotone(800 * s))],
    }[pid]()
UNARY = ["sign", "absolute", "inversion", "square_root"] + EXP + LOG + TRIG + PITRIG + ARC + ARCPI + HYP + AR
SPECIAL = {
    "C26": lambda w, rep, tier, seed: sessions.check(w, rep, tier, seed, UNARY, BINARY),
    "C27": calc.check,
    "C28": lambda w, rep, tier, seed: builds.check(w, rep, everything(1 if tier == "quick" else 12), seed),
}
