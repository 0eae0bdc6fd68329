------------------------------- MODULE Takum --------------------------------
(***************************************************************************)
(* The takum number format, for any width n, in both families:             *)
(*   logarithmic  takum<n>          value (-1)^S * sqrt(e)^l               *)
(*   linear       takum_linear<n>   value ((1-3S) + f) * 2^e               *)
(* A takum is a signed n-bit integer t.  Bit string, from the top:         *)
(*   S  D  RRR  C (r bits)  M (p bits)                                     *)
(* A width below 12 is read as if zeros were appended.                     *)
(***************************************************************************)
EXTENDS Ints, Sequences

NaR(n)    == -(2^(n-1))
PosMax(n) == 2^(n-1) - 1          \* POSITIVE_MAXIMUM
PosMin(n) == 1                    \* POSITIVE_MINIMUM
One(n)    == 2^(n-2)
IsTakum(n, t) == NaR(n) <= t /\ t <= PosMax(n)
IsNaR(n, t) == t <= NaR(n)

Bits(n, t) == t % 2^n             \* two's complement bit pattern

(* The fields of a takum that is neither 0 nor NaR. *)
Fields(n, t) ==
    LET N == IF n < 12 THEN 12 ELSE n
        u == Bits(n, t) * 2^(N - n)
        D == (u \div 2^(N-2)) % 2
        R == (u \div 2^(N-5)) % 8
        r == IF D = 1 THEN R ELSE 7 - R
        p == N - 5 - r
        C == (u \div 2^p) % 2^r
        M == u % 2^p
    IN  [S |-> IF t < 0 THEN 1 ELSE 0, D |-> D, R |-> R, r |-> r, p |-> p,
         C |-> C, M |-> M,
         c |-> IF D = 1 THEN 2^r - 1 + C ELSE -(2^(r+1)) + 1 + C]

(* Number of mantissa bits, as the library's precision() reports it. *)
Precision(n, t) ==
    IF t = 0 \/ IsNaR(n, t) THEN Max(0, n - 12)
    ELSE Max(0, n - 5 - Fields(n, t).r)

(* Dyadic numbers: <<a, k>> stands for a / 2^k. *)

(* l = (-1)^S (c + m), the logarithmic value. *)
LogValue(n, t) == LET f == Fields(n, t)
                  IN  <<(1 - 2 * f.S) * (f.c * 2^f.p + f.M), f.p>>

(* ((1-3S) + f) 2^e with e = (-1)^S (c + S), f = m; here as v * 2^x. *)
LinValue(n, t) == LET f == Fields(n, t)
                      e == (1 - 2 * f.S) * (f.c + f.S)
                  IN  <<(1 - 3 * f.S) * 2^f.p + f.M, e - f.p>>

(***************************************************************************)
(* Rounding.  The positive takums are, as integers, the samples of one     *)
(* increasing piecewise-linear function of the real number c+m; rounding   *)
(* takes the nearest integer on that line (the bit string's own scale),    *)
(* ties to the even integer, and saturates to [1, PosMax]: a non-zero      *)
(* number never becomes 0 or NaR.                                          *)
(***************************************************************************)
CharR(c) == IF c >= 0 THEN BitLen(c + 1) - 1 ELSE BitLen(-c) - 1

RoundPos(n, a, k) ==       \* c+m = a / 2^k
    LET c == ShF(a, -k)
    IN  IF c > 254 THEN PosMax(n)
        ELSE IF c < -255 THEN 1
        ELSE LET r    == CharR(c)
                 DR   == IF c >= 0 THEN 8 + r ELSE 7 - r
                 bias == IF c >= 0 THEN 2^r - 1 ELSE -(2^(r+1)) + 1
                 s    == n - 5 - r - k
                 off  == a - ShF(bias, k)
                 T    == IF s >= 0 /\ n >= 5 + r
                         THEN DR * 2^(n-5) + off * 2^s
                         ELSE RoundHalfEven(DR * 2^(n-5-s) + off, -s)
             IN  Max(1, Min(PosMax(n), T))

(* The logarithmic takum nearest (-1)^neg * sqrt(e)^(a/2^k). *)
RoundLog(n, neg, a, k) == IF neg THEN -RoundPos(n, a, k) ELSE RoundPos(n, a, k)

(* The linear takum nearest v * 2^x. *)
RoundLin(n, v, x) ==
    IF v = 0 THEN 0
    ELSE LET w == Abs(v)
             h == BitLen(w) - 1
             T == RoundPos(n, (h + x) * 2^h + (w - 2^h), h)
         IN  IF v < 0 THEN -T ELSE T

(* Width conversion inside a family. *)
Expand(n, m, t) == t * 2^(m - n)
Reduce(n, m, t) ==
    IF t = 0 THEN 0 ELSE IF IsNaR(n, t) THEN NaR(m)
    ELSE LET T == Max(1, Min(PosMax(m), RoundHalfEven(Abs(t), n - m)))
         IN  IF t < 0 THEN -T ELSE T
Resize(n, m, t) == IF m >= n THEN Expand(n, m, t) ELSE Reduce(n, m, t)
=============================================================================
