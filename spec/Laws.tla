-------------------------------- MODULE Laws ---------------------------------
(***************************************************************************)
(* Laws relating several calls.  A history <<law, call, call, ...>> is a   *)
(* short behaviour of the library; each call is recorded with its actual   *)
(* operands, result and status.  The laws say nothing about accuracy: they *)
(* relate the observed results to each other.                              *)
(***************************************************************************)
EXTENDS Rows

CallsOf(h) == LET c(j) == SubSeq(h, 7 * j - 5, 7 * j + 1)
              IN  [j \in 1..((Len(h) - 1) \div 7) |-> c(j)]
Arg(c) == c[4]
Res(c) == c[6]
IsFloat(op) == op \in ToOps
ResNeg(c) ==              \* the result, negated
    IF IsFloat(c[1])
    THEN LET w == FloatWidth(c[1])
         IN  IF Negative(w, Res(c)) THEN Res(c) - 2^(w-1) ELSE Res(c) + 2^(w-1)
    ELSE IF IsNaR(c[3], Res(c)) THEN Res(c) ELSE -Res(c)
Undef(c) == IF IsFloat(c[1]) THEN IsNaN(FloatWidth(c[1]), Res(c)) ELSE IsNaR(c[3], Res(c))
(* a place on the number line: equal for the two zeros of IEEE 754 *)
Place(c, r) == IF IsFloat(c[1]) THEN Key(FloatWidth(c[1]), r) ELSE r
Same(c, d) == (Undef(c) /\ Undef(d)) \/ (~Undef(c) /\ ~Undef(d) /\ Eq(Place(c, Res(c)), Place(d, Res(d))))

Opposite(c, d) == (Undef(c) /\ Undef(d))
                  \/ (~Undef(c) /\ ~Undef(d) /\ Eq(Place(d, Res(d)), Place(c, ResNeg(c))))
(* the same, up to one unit in the last place *)
Opposite1(c, d) == (Undef(c) /\ Undef(d)) \/ (~Undef(c) /\ ~Undef(d) /\ Abs(Res(c) + Res(d)) <= 1)
Same1(c, d) == (Undef(c) /\ Undef(d)) \/ (~Undef(c) /\ ~Undef(d) /\ Abs(Res(c) - Res(d)) <= 1)
(* a takum beyond the range of normal numbers of the IEEE format *)
OutOfFloat(c) == IsFloat(c[1]) /\ Arg(c) # 0 /\ ~Undef(c)
                 /\ LET w == FloatWidth(c[1])  k == MagKey(w, Res(c))
                    IN  k < 2^FracBits(w) \/ k >= InfKey(w)
(* a linear takum beyond the smaller range of the logarithmic takums *)
OutOfLog(c) == c[1] \in ConvOps /\ c[2] = 0 /\ (Abs(Res(c)) = 1 \/ Eq(Abs(Res(c)), PosMax(c[3])))
InvOfZero(c) == c[1] = "inversion" /\ Arg(c) = 0
(* points where the symmetry is not promised: the exact points of the      *)
(* f(pi x) functions have a check of their own; arctan2 at y = 0           *)
Skip(c) == \/ c[1] \in PiFns /\ ~IsNaR(c[3], Arg(c)) /\ TwiceExact(c[2] = 1, c[3], Arg(c))[1]
           \/ c[1] \in {"arctan2", "arctan2_over_pi"} /\ Arg(c) = 0

(* monotone functions: two calls whose only difference is an operand, on   *)
(* the same side of zero for those that are monotone on each side          *)
Sided == {"inversion", "arccot", "arccot_over_pi", "csch", "coth", "arcsch", "arcoth", "arcsec", "arcsec_over_pi", "arccsc",
          "arccsc_over_pi", "division", "hypotenuse", "cosh", "sech"}
Moved(c, d) == IF Eq(c[4], d[4]) THEN 5 ELSE 4
NotRising(c, d) ==                \* no claim about these two
    LET m == Moved(c, d)
    IN  \/ Undef(c) \/ Undef(d)
        \/ IsNaR(c[3], c[m]) \/ IsNaR(c[3], d[m])
        \/ c[1] \in Sided /\ (c[1] # "division" \/ m = 5) /\ Sgn(c[m]) # Sgn(d[m])
        \/ c[1] \in {"hypotenuse", "cosh", "sech"} /\ c[m] < 0
Other(c, d) == IF Moved(c, d) = 4 THEN c[5] ELSE c[4]
AtMost(c, d) == Res(c) <= Res(d)

Holds(h) ==
    LET c == CallsOf(h)
        k == Len(c)
        law == h[1]
    IN  /\ \A j \in 1..k : c[j][7] = 0
        /\ CASE law = ".back"     -> OutOfFloat(c[1]) \/ OutOfLog(c[1]) \/ InvOfZero(c[1]) \/ Eq(Res(c[k]), Arg(c[1]))
             [] law = ".same"     -> Same(c[k - 1], c[k])
             [] law = ".opposite" -> Skip(c[1]) \/ Opposite(c[1], c[2])
             [] law = ".even"     -> Skip(c[1]) \/ Same(c[1], c[2])
             [] law = ".opposite1" -> Skip(c[1]) \/ Opposite1(c[1], c[2])
             [] law = ".even1"    -> Skip(c[1]) \/ Same1(c[1], c[2])
             [] law = ".parity1"  -> IF ~IsEven(c[1][5]) THEN Opposite1(c[1], c[2])
                                     ELSE c[1][1] = "root" \/ Same1(c[1], c[2])
             [] law = ".parity"   -> IF ~IsEven(c[1][5]) THEN Opposite(c[1], c[2])
                                     ELSE c[1][1] = "root" \/ Same(c[1], c[2])
             [] law = ".mono"     -> ~Undef(c[1]) /\ ~Undef(c[2]) /\ Place(c[1], Res(c[1])) <= Place(c[2], Res(c[2]))
             [] law = ".anti"     -> ~Undef(c[1]) /\ ~Undef(c[2]) /\ Place(c[1], Res(c[1])) >= Place(c[2], Res(c[2]))
             [] law = ".strict"   -> ~Undef(c[1]) /\ ~Undef(c[2]) /\ Place(c[1], Res(c[1])) < Place(c[2], Res(c[2]))
             [] law = ".rises"    -> NotRising(c[1], c[2]) \/ AtMost(c[1], c[2])
             [] law = ".falls"    -> NotRising(c[1], c[2]) \/ AtMost(c[2], c[1])
             [] law = ".scales"   -> \/ NotRising(c[1], c[2])       \* by the sign of the other operand
                                     \/ LET z == Other(c[1], c[2])
                                        IN  CASE z > 0 -> AtMost(c[1], c[2]) [] z < 0 -> AtMost(c[2], c[1]) [] OTHER -> Same(c[1], c[2])
             [] law = ".divides"  -> \/ NotRising(c[1], c[2])
                                     \/ LET z == Other(c[1], c[2])
                                        IN  CASE z > 0 -> AtMost(c[2], c[1]) [] z < 0 -> AtMost(c[1], c[2]) [] OTHER -> Same(c[1], c[2])
             [] law = ".one"      -> IF Arg(c[k]) = 0 \/ IsNaR(c[k][3], Arg(c[k])) THEN Undef(c[k])
                                     ELSE Eq(Res(c[k]), One(c[k][3]))
             [] law = ".onebase"  -> IF (c[1][1] = "power" /\ IsNaR(c[1][3], c[1][5])) \/ (c[1][1] = "root" /\ c[1][5] = 0) THEN TRUE
                                     ELSE Eq(Res(c[1]), One(c[1][3]))
             [] law = ".onepower" -> Arg(c[1]) = 0 \/ IsNaR(c[1][3], Arg(c[1])) \/ Eq(Res(c[1]), One(c[1][3]))
             [] law = ".zerodiv"  -> IF c[1][5] = 0 \/ IsNaR(c[1][3], c[1][5]) THEN Undef(c[1]) ELSE Res(c[1]) = 0
             [] law = ".negback"  -> IF IsNaR(c[1][3], Arg(c[1])) THEN Undef(c[1]) ELSE Eq(Res(c[1]), -Arg(c[1]))
             [] law = ".zero"     -> IF IsNaR(c[k][3], Arg(c[k])) THEN Undef(c[k]) ELSE Eq(Res(c[k]), 0)
=============================================================================
