------------------------------ MODULE Constants ------------------------------
(***************************************************************************)
(* The named constants of takum.h: each is the takum nearest the exact     *)
(* mathematical number it is named after (no working precision granted).   *)
(***************************************************************************)
EXTENDS TakumFn

PiMultiple ==
   [const_PI |-> <<1, 1>>, const_2_PI |-> <<2, 1>>, const_3_PI |-> <<3, 1>>, const_4_PI |-> <<4, 1>>,
    const_5_PI |-> <<5, 1>>, const_6_PI |-> <<6, 1>>,
    const_PI_OVER_2 |-> <<1, 2>>, const_PI_OVER_3 |-> <<1, 3>>, const_PI_OVER_4 |-> <<1, 4>>,
    const_PI_OVER_5 |-> <<1, 5>>, const_PI_OVER_6 |-> <<1, 6>>,
    const_2_PI_OVER_3 |-> <<2, 3>>, const_2_PI_OVER_5 |-> <<2, 5>>,
    const_3_PI_OVER_2 |-> <<3, 2>>, const_3_PI_OVER_4 |-> <<3, 4>>, const_3_PI_OVER_5 |-> <<3, 5>>,
    const_4_PI_OVER_3 |-> <<4, 3>>, const_4_PI_OVER_5 |-> <<4, 5>>,
    const_5_PI_OVER_2 |-> <<5, 2>>, const_5_PI_OVER_3 |-> <<5, 3>>, const_5_PI_OVER_4 |-> <<5, 4>>,
    const_5_PI_OVER_6 |-> <<5, 6>>, const_6_PI_OVER_5 |-> <<6, 5>>]
SquareRoot == [const_SQUARE_ROOT_2 |-> 2, const_SQUARE_ROOT_3 |-> 3, const_SQUARE_ROOT_5 |-> 5,
               const_SQUARE_ROOT_6 |-> 6]
OtherReal == {"const_LB_10", "const_LB_E", "const_LG_2", "const_LG_E", "const_LN_10", "const_LN_2",
              "const_PHI", "const_GAMMA"}
Exact == {"const_NAR", "const_ONE", "const_POSITIVE_MINIMUM", "const_POSITIVE_MAXIMUM"}
ConstOps == DOMAIN PiMultiple \cup DOMAIN SquareRoot \cup OtherReal \cup Exact

(* The Euler-Mascheroni constant 0.577215664901532860606512090082402431042 *)
(* 159335939923598..., to 44 decimals                                      *)
GammaI == LET d == ((((57721566 * 10^9 + 490153286) * 10^9 + 60606512) * 10^9 + 90082402) * 10^9)
                   + 431042159
          IN  IDiv(<<d, d + 1, 0>>, IInt(10^44))

ConstVal(c) ==
    IF c \in DOMAIN PiMultiple THEN IDiv(IMul(PiI, IInt(PiMultiple[c][1])), IInt(PiMultiple[c][2]))
    ELSE IF c \in DOMAIN SquareRoot THEN ISqrtI(IInt(SquareRoot[c]))
    ELSE CASE c = "const_LB_10" -> IDiv(Ln10I, Ln2I)
           [] c = "const_LB_E" -> LbEI
           [] c = "const_LG_2" -> IDiv(Ln2I, Ln10I)
           [] c = "const_LG_E" -> LgEI
           [] c = "const_LN_10" -> Ln10I
           [] c = "const_LN_2" -> Ln2I
           [] c = "const_PHI" -> IScale(IAdd(OneI, ISqrtI(IInt(5))), -1)
           [] c = "const_GAMMA" -> GammaI

ConstVerdict(c, lin, n) ==
    CASE c = "const_NAR" -> Nar
      [] c = "const_ONE" -> Int_(One(n))
      [] c = "const_POSITIVE_MINIMUM" -> Int_(PosMin(n))
      [] c = "const_POSITIVE_MAXIMUM" -> Int_(PosMax(n))
      [] OTHER -> LET F == ConstVal(c)
                  IN  IF lin THEN Between(<<RoundLin(n, F[1], F[3]), RoundLin(n, F[2], F[3])>>)
                      ELSE Between(<<LogBoundP(n, Lo(F), FALSE, -128), LogBoundP(n, Hi(F), TRUE, -128)>>)
==============================================================================
