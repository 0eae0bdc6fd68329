"""Plans of histories for the laws (see spec/GenLaws.tla)."""
T = [(f, n) for f in (0, 1) for n in (8, 16, 32, 64)]
OVER = lambda *x: [a + s for a in x for s in ("", "_over_pi")]
ODD = ["sin", "tan", "csc", "cot", "sin_pi_times", "tan_pi_times", "csc_pi_times", "cot_pi_times"] \
    + OVER("arcsin", "arctan", "arccsc") \
    + ["sinh", "tanh", "csch", "coth", "arsinh", "artanh", "arcsch", "arcoth", "sign", "inversion"]
EVEN = ["absolute", "cos", "sec", "cos_pi_times", "sec_pi_times", "cosh", "sech"]
TO = ["to_float32", "to_float64", "to_extended_float"]
FROM = ["from_float32", "from_float64", "from_extended_float"]


def convs(f, n):
    for g, m in T:
        if (g, m) != (f, n):
            yield "from_takum%s%d" % ("_linear" if g else "", m), g, m


def key(p):
    """The function whose operands a plan entry varies."""
    law, kind, f, n, op = p[:5]
    if kind == "wide":
        return ("from_takum%s%d" % ("_linear" if f else "", n), p[6], p[7])
    return (op, f, n)


def symmetry(k):
    p = []
    for f, n in T:
        e = lambda law, kind, op, c=k: p.append((law, kind, f, n, op, "-", c))
        # a logarithmic result of extended precision is rounded with the sign
        # (64 bits), and f(pi x) reduces x with its sign: no exact symmetry there
        inexact = f == 0 and n == 64
        near = "1" if inexact else ""           # the law up to one unit
        for o in ODD + EVEN:
            if o in ("sign", "inversion", "absolute"):
                e(".opposite" if o in ODD else ".even", "neg1", o)
            elif not (f == 0 and "pi_times" in o):
                e((".opposite" if o in ODD else ".even") + near, "neg1", o)
        for o in FROM + TO + [c for c, g, _ in convs(f, n)]:
            exact = not inexact or o in TO or o in [c for c, g, _ in convs(f, n) if g == f]
            e(".opposite" if exact else ".opposite1", "neg1", o)
        for o in ("multiplication", "division"):
            e(".opposite", "neg1", o)
            e(".opposite", "neg2", o)
            e(".even", "negb", o)
        for o in ("addition", "subtraction"):
            e(".opposite" + near, "negb", o, 2 * k)
        e(".opposite" + near, "swap", "subtraction", 2 * k)
        for o in ("addition", "multiplication", "hypotenuse"):
            e(".even", "swap", o, 2 * k)
        e(".even", "neg1", "hypotenuse")
        e(".even", "neg2", "hypotenuse")
        for o in ("arctan2", "arctan2_over_pi"):
            e(".opposite" + near, "neg1", o)
        for o in ("integer_power", "root"):
            e(".parity" + near, "neg1", o)
        p.append((".even", "addneg", f, n, "subtraction", "addition", 2 * k))
    return p


def identities(k):
    p = []
    for f, n in T:
        def e(law, kind, op, c=k): p.append((law, kind, f, n, op, "-", c))
        e(".zero", "self", "subtraction")
        e(".one", "self", "division")
        e(".back", "unit", "multiplication")
        e(".back", "unit", "division")
        e(".back", "unit1", "integer_power")
        e(".back", "unit1", "root")
        e(".back", "unit0", "addition")
        e(".back", "unit0", "subtraction")
        e(".back", "signabs", "sign")
        e(".back", "unit", "power")
        e(".onepower", "unit0", "power", k // 2)
        e(".one", "unit0", "integer_power", k // 2)
        for o in ("power", "integer_power", "root"):
            e(".onebase", "onebase", o, k // 2)
        e(".zero", "unit0", "multiplication", k // 2)
        e(".zerodiv", "zerofst", "division", k // 2)
        e(".negback", "minus1", "multiplication", k // 2)
        e(".negback", "minus1", "division", k // 2)
        e(".same", "hypot0", "hypotenuse")
        e(".same", "hypot0b", "hypotenuse")
        if f == 1:
            e(".same", "double", "multiplication")
        if f == 0:
            e(".same", "recip", "integer_power")
            e(".same", "recip", "root")
            e(".same", "root2", "root")
            e(".same", "square", "integer_power")
            e(".same", "divinv", "division")
            e(".back", "twice", "inversion")
    return p


def roundtrip(k):
    p = []
    for f, n in T:
        for o in TO:
            if n <= {"to_float32": 16, "to_float64": 32, "to_extended_float": 64}[o]:
                p.append((".back", "float", f, n, o, "-", k))
        for _, g, m in convs(f, n):
            if m > n:
                p.append((".back", "wide", f, n, "-", "-", g, m, k))
    return p


def order(k):
    p = []
    for f, n in T:
        for o in TO:
            p.append((".mono", "two", f, n, o, "-", k))
        p.append((".strict", "two", f, n, "to_extended_float", "-", k))
        for o in FROM:
            p.append((".mono", "twofloat", f, n, o, "-", k))
        for o, g, m in convs(f, n):
            p.append((".mono", "twosrc", f, n, o, "-", k))
    return p


RISING = ["exp", "2_raised", "10_raised", "exp_minus_1", "2_raised_minus_1", "10_raised_minus_1", "ln", "lb", "lg", "ln_1_plus",
          "lb_1_plus", "lg_1_plus", "sinh", "tanh", "arsinh", "arcosh", "artanh", "cosh", "square_root", "sign"] \
    + OVER("arcsin", "arctan", "arcsec")
FALLING = ["inversion", "csch", "coth", "arcsch", "arcoth", "arsech", "sech"] + OVER("arccos", "arccot", "arccsc")


def monotone(k):
    p = []
    for f, n in T:
        e = lambda law, kind, op, c=k: p.append((law, kind, f, n, op, "-", c))
        for o in RISING + FALLING:
            if n < 64 or o in ("square_root", "inversion", "sign"):
                e(".rises" if o in RISING else ".falls", "two", o)
        if n < 64 or f == 1:
            e(".rises", "twofst", "addition")
            e(".rises", "twosnd", "addition")
            e(".rises", "twofst", "subtraction")
            e(".falls", "twosnd", "subtraction")
        for o, law, kind in (("multiplication", ".scales", "twofst"), ("multiplication", ".scales", "twosnd"),
                             ("division", ".scales", "twofst"), ("division", ".divides", "twosnd")):
            e(law, kind, o)
        if n < 64:
            e(".rises", "twofst", "hypotenuse")
            e(".rises", "twosnd", "hypotenuse")
    return p
