----------------------------- MODULE GenSession ------------------------------
(***************************************************************************)
(* Sessions to run.  A plan entry <<kind, op, fam, n, first, extra, count>>*)
(* (ExtraFile's rows first, ... are further calls of op): a session        *)
(* has a pool of calls around a base call of op - negated, adjacent, and   *)
(* swapped operands, operands that share their low or their high half with *)
(* it, the same operands for another function, width or family - and a     *)
(* random order in which the calls are made.                               *)
(***************************************************************************)
EXTENDS Samples
CONSTANTS PlanFile, OutFile, ExtraFile, Steps, Threads
Plan == ReadRows(PlanFile)
Extra == ReadRows(ExtraFile)
PoolSize == 16

Fit(n, t) == IF t > PosMax(n) THEN PosMax(n) ELSE IF t < NaR(n) THEN NaR(n) ELSE t
LowHalf(n, a, u) == LET h == n \div 2 IN Signed(n, (a % 2^h) + (u % 2^h) * 2^h)
HighHalf(n, a, u) == LET h == n \div 2 IN Signed(n, (Bits(n, a) \div 2^h) * 2^h + (u % 2^h))
Neg(n, t) == IF IsNaR(n, t) THEN t ELSE -t
Ops1 == <<"exp", "ln", "sin", "tan", "sin_pi_times", "arcsin", "sinh", "artanh", "square_root", "inversion",
          "2_raised", "10_raised", "lb", "lg", "cos_pi_times", "arccot", "tanh", "arcosh", "precision", "absolute">>
Ops2 == <<"addition", "subtraction", "multiplication", "division", "power", "hypotenuse", "arctan2">>
Other(op, u) == IF op \in BinaryFns THEN Pick(Ops2, u) ELSE IF op \in IntFns THEN (IF op = "root" THEN "integer_power" ELSE "root")
                ELSE IF op \in ConvOps \cup ToOps \cup FromOps THEN op ELSE Pick(Ops1, u)
(* the source type of the operand *)
SrcN(op, n) == IF op \in ConvOps THEN SrcOf[op][2] ELSE n

TakumPool(op, f, n, s, i) ==
    LET x == ArgsOf(op, f, n, s, i)
        a == x[1]
        b == x[2]
        m == SrcN(op, n)
        u == Rnd(s + 15, i)
        v == Rnd(s + 16, i)
        n2 == IF n = 8 THEN 16 ELSE IF n = 64 THEN 32 ELSE 2 * n
        y == ArgsOf(op, f, n, s + 8, i)
        c(a1, b1) == <<op, f, n, a1, b1>>
        o == Other(op, v)
        tw == op \in BinaryFns
        b2 == IF tw THEN Neg(n, b) ELSE IF op \in IntFns THEN (IF b > -(2^62) /\ b < 2^62 THEN -b ELSE 3) ELSE 0
        b3 == IF tw THEN Fit(n, b + 1) ELSE IF op \in IntFns THEN (IF b < 2^62 THEN b + 1 ELSE b - 1) ELSE 0
        \* the same bit string for the same function in another type, where there is one
        same(g, k) == IF op \in ConvOps THEN c(a, b) ELSE <<op, g, k, IF k >= n THEN a ELSE Signed(k, a), IF tw THEN (IF k >= n THEN b ELSE Signed(k, b)) ELSE b>>
        up == IF op \in ConvOps THEN c(a, b)
              ELSE IF n2 > n THEN <<op, f, n2, Signed(n2, a * 2^(n2 - n)), IF tw THEN Signed(n2, b * 2^(n2 - n)) ELSE b>>
              ELSE same(f, n2)
    IN  << c(a, b), c(Neg(m, a), b), c(Fit(m, a + 1), b), c(Fit(m, a - 1), b),
           c(LowHalf(m, a, u), b), c(HighHalf(m, a, u), b), c(a, b2), c(a, b3),
           IF tw THEN c(b, a) ELSE c(Fit(m, a + 2), b), same(1 - f, n), up, <<o, f, n, a, b>>,
           c(y[1], y[2]), c(NaR(m), b), c(IF m > 8 /\ ~IsNaR(m, a) THEN Fit(m, a + 256) ELSE Fit(m, a + 3), b),
           c(Signed(m, a + 2^(m - 1)), b) >>
FloatPool(op, f, n, s, i) ==
    LET w == FloatWidth(op)
        at(j) == FloatArg(w, f, n, s, j)
        k(b) == MagKey(w, b)
        near(b, d) == IF k(b) >= InfKey(w) THEN b ELSE WithSign(w, Negative(w, b), k(b) + d)
        flip(b) == IF Negative(w, b) THEN b - 2^(w-1) ELSE b + 2^(w-1)
        b0 == at(i)
        r(j) == at(Len(FloatSpecial(w)) + 16 * i + j)
        low == IF w = 80 THEN r(5) ELSE (b0 % 2^(w \div 2)) + (r(6) \div 2^(w \div 2)) * 2^(w \div 2)
        hi == IF w = 80 THEN r(7) ELSE (b0 \div 2^(w \div 2)) * 2^(w \div 2) + (r(8) % 2^(w \div 2))
        c(b) == <<op, f, n, b, 0>>
    IN  << c(b0), c(flip(b0)), c(near(b0, 1)), c(near(b0, -1)), c(low), c(hi), c(r(1)), c(r(2)),
           <<op, 1 - f, n, b0, 0>>, <<op, f, IF n = 64 THEN 8 ELSE 2 * n, b0, 0>>, c(r(3)), c(flip(r(3))), c(r(4)),
           c(PatternOf(w, InfKey(w)) + 2^(FracBits(w) - 1)), c(0), c(near(b0, 256)) >>
(* unrelated calls of any function *)
AllOps == Ops1 \o Ops2 \o <<"integer_power", "root", "to_float32", "to_float64", "to_extended_float", "from_float32", "from_float64",
             "from_extended_float">>
MixPool(s, i) ==
    [j \in 1..PoolSize |->
        LET u == Rnd(s + 15, PoolSize * i + j)
            o == Pick(AllOps, u)
            f == (u \div 64) % 2
            n == Widths[1 + ((u \div 128) % 4)]
            a == ArgsOf(o, f, n, s, PoolSize * i + j)
        IN  <<o, f, n, a[1], a[2]>>]
ExtraPool(p, s, i) ==
    IF p[6] = 0 THEN << >>
    ELSE [j \in 1..8 |-> Extra[p[5] + ((Rnd(s + 19, 8 * i) + j) % p[6])]]
BasePool(p, s, i) == IF p[1] = "mix" THEN MixPool(s, i)
                   ELSE IF p[2] \in FromOps THEN FloatPool(p[2], p[3], p[4], s, i)
                   ELSE TakumPool(p[2], p[3], p[4], s, i)

(* a random order with runs, repetitions and returns to an earlier call *)
PoolOf(p, s, i) == BasePool(p, s, i) \o ExtraPool(p, s, i)
Order(s, i, len, size) ==
    [j \in 1..len |-> LET u == Rnd(s + 18, len * i + j)
                      IN  1 + (IF u % 4 = 0 THEN (u \div 8) % 3 ELSE (u \div 8) % size)]
SessionOf(p, s, i) ==
    LET pool == PoolOf(p, s, i)
    IN  <<Len(pool), Steps, Threads>> \o Flat(pool) \o Order(s, i, Steps * (1 + Threads), Len(pool))

VARIABLES entry, calls
Stream(e) == 20 * e
Init == entry \in 1..Len(Plan) /\ calls = 0
Session == /\ calls < Plan[entry][7]
           /\ WriteRow(OutFile, SessionOf(Plan[entry], Stream(entry), calls))
           /\ calls' = calls + 1
           /\ UNCHANGED entry
Spec == Init /\ [][Session]_<<entry, calls>>
=============================================================================
