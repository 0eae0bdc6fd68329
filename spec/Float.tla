-------------------------------- MODULE Float --------------------------------
(***************************************************************************)
(* The three IEEE 754 formats the library converts from and to:            *)
(*   32  binary32,  64  binary64,  80  x87 extended float.                 *)
(* Bit patterns are natural numbers.  Key(w, b) orders all non-NaN values: *)
(* equal keys are equal numbers (both zeros have key 0), neighbours differ *)
(* by one, infinities lie one past the largest finite number.              *)
(***************************************************************************)
EXTENDS Ints, Sequences

FracBits(w) == IF w = 32 THEN 23 ELSE IF w = 64 THEN 52 ELSE 63
ExpBits(w)  == IF w = 32 THEN 8 ELSE IF w = 64 THEN 11 ELSE 15
EMin(w)     == 2 - 2^(ExpBits(w) - 1)             \* least normal exponent
InfKey(w)   == (2^ExpBits(w) - 1) * 2^FracBits(w)

(* magnitude key; the x87 format has an explicit integer bit *)
MagKey(w, b) ==
    IF w < 80 THEN b % 2^(w - 1)
    ELSE LET E == (b \div 2^64) % 2^15
             m == b % 2^64
         IN  IF E = 0 THEN m ELSE (E - 1) * 2^63 + m
Negative(w, b) == (b \div 2^(w - 1)) % 2 = 1
IsNaN(w, b) == MagKey(w, b) > InfKey(w)
IsInf(w, b) == Eq(MagKey(w, b), InfKey(w))
Key(w, b) == IF Negative(w, b) THEN -MagKey(w, b) ELSE MagKey(w, b)

(* the value v * 2^x of a finite pattern *)
FloatValue(w, b) ==
    LET k == MagKey(w, b)
        m == FracBits(w)
        E == k \div 2^m
        v == IF E = 0 THEN k ELSE (k % 2^m) + 2^m
        s == IF Negative(w, b) THEN -1 ELSE 1
    IN  <<s * v, (IF E = 0 THEN 0 ELSE E - 1) + EMin(w) - m>>

(* the pattern with a given magnitude key *)
PatternOf(w, k) ==
    IF w < 80 THEN k
    ELSE LET E == k \div 2^63 IN IF E = 0 THEN k ELSE E * 2^64 + 2^63 + (k % 2^63)

(* key of v * 2^x rounded to nearest, ties to even *)
RoundKey(w, v, x) ==
    IF v = 0 THEN 0
    ELSE LET a == Abs(v)
             h == BitLen(a) - 1 + x
             g == IF h < EMin(w) THEN EMin(w) ELSE h
             q == g - FracBits(w)                       \* quantum 2^q
             k == IF x >= q THEN a * 2^(x - q) ELSE RoundHalfEven(a, q - x)
             K == Min((g - EMin(w)) * 2^FracBits(w) + k, InfKey(w))
         IN  IF v < 0 THEN -K ELSE K
=============================================================================
