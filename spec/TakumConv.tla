------------------------------ MODULE TakumConv ------------------------------
(***************************************************************************)
(* Conversions: between takum widths and families, and from / to IEEE 754. *)
(***************************************************************************)
EXTENDS TakumFn, Float

ToOps == {"to_float32", "to_float64", "to_extended_float"}
FromOps == {"from_float32", "from_float64", "from_extended_float"}
FloatWidth(op) == IF op \in {"to_float32", "from_float32"} THEN 32
                  ELSE IF op \in {"to_float64", "from_float64"} THEN 64 ELSE 80

(***************************************************************************)
(* takum -> IEEE.  Linear takums are dyadic numbers: the result is their   *)
(* value correctly rounded.  Logarithmic takums are sqrt(e)^l: the result  *)
(* is that value to the relative accuracy (|l|+4) 2^-k of the format's     *)
(* exponential, exactly +-1 for l = 0.                                     *)
(***************************************************************************)
ToRel(w, n) == IF w = 32 THEN 24 ELSE IF w = 64 THEN 52 ELSE 63
ToRange(w, lin, n, t) ==
    IF lin THEN LET a == LinValue(n, t)
                    k == RoundKey(w, a[1], a[2])
                IN  <<k, k>>
    ELSE LET l == LogValue(n, t)
             x == ExactVal(FALSE, n, t)
             F == IF l[1] = 0 THEN OneI
                  ELSE FuzzBy(x, Max(BitLen(l[1]) - l[2], 2) + 1 - ToRel(w, n))
             G == IF l[1] = 0 /\ t < 0 THEN INeg(F) ELSE F
         IN  <<RoundKey(w, G[1], G[3]), RoundKey(w, G[2], G[3])>>
ToVerdict(w, lin, n, t) ==
    IF IsNaR(n, t) THEN <<"nan", w>>
    ELSE IF t = 0 THEN <<"flt", w, 0, 0>>
    ELSE LET r == ToRange(w, lin, n, t) IN <<"flt", w, r[1], r[2]>>

(***************************************************************************)
(* IEEE -> takum                                                           *)
(***************************************************************************)
FromPad(w, n) == IF w = 32 /\ n <= 32 THEN (IF n = 8 THEN -24 ELSE -52) ELSE LogPad(n)
FromVerdict(w, lin, n, b) ==
    IF IsNaN(w, b) \/ IsInf(w, b) THEN Nar
    ELSE IF MagKey(w, b) = 0 THEN Int_(0)
    ELSE LET a == FloatValue(w, b)
             v == Abs(a[1])
             P == Point(v, a[2])
             neg == Negative(w, b)
         IN  IF lin
             THEN IF w = 80           \* c+m is rounded to an extended float first
                  THEN LET k == IF n <= 16 THEN 52 ELSE -LinSlack(n, v, a[2])
                           lo == LinBoundBy(n, v, a[2], k, FALSE)
                           hi == LinBoundBy(n, v, a[2], k, TRUE)
                       IN  IF neg THEN <<"rng", -hi, -lo>> ELSE <<"rng", lo, hi>>
                  ELSE Int_(RoundLin(n, a[1], a[2]))
             ELSE LET lo == LogBoundP(n, P, FALSE, FromPad(w, n))
                      hi == LogBoundP(n, P, TRUE, FromPad(w, n))
                  IN  IF neg THEN <<"rng", -hi, -lo>> ELSE <<"rng", lo, hi>>

(***************************************************************************)
(* takum -> takum, op = "from_takum8" .. "from_takum_linear64"             *)
(***************************************************************************)
SrcOf == [from_takum8 |-> <<FALSE, 8>>, from_takum16 |-> <<FALSE, 16>>,
          from_takum32 |-> <<FALSE, 32>>, from_takum64 |-> <<FALSE, 64>>,
          from_takum_linear8 |-> <<TRUE, 8>>, from_takum_linear16 |-> <<TRUE, 16>>,
          from_takum_linear32 |-> <<TRUE, 32>>, from_takum_linear64 |-> <<TRUE, 64>>]
ConvOps == DOMAIN SrcOf

ConvVerdict(op, lin, n, t) ==
    LET s == SrcOf[op]
    IN  IF s[1] = lin THEN Int_(Resize(s[2], n, t))
        ELSE IF IsNaR(s[2], t) THEN Nar
        ELSE IF t = 0 THEN Int_(0)
        ELSE IF Eq(Abs(t), One(s[2])) THEN Int_(Sgn(t) * One(n))
        ELSE IF ~s[1] /\ s[2] <= 32 /\ n <= 32       \* by way of binary64
        THEN Val(FuzzBy(ExactVal(s[1], s[2], t), LogFuzz(s[2], t) + 12))
        ELSE Val(ArgVal(s[1], s[2], t))
=============================================================================
