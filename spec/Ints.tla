-------------------------------- MODULE Ints --------------------------------
(***************************************************************************)
(* Elementary integer operators.  Everything in this specification is      *)
(* stated with unbounded integers.  TLC is run with a replacement of its   *)
(* 32-bit module Integers (/verif/tlc/java), so + - * \div % ^ mean what   *)
(* the standard module says.  BitLen, ISqrt and Gcd are defined here and   *)
(* evaluated by TLC through Java overrides of the same meaning             *)
(* (MC_Ints checks the two against each other).                            *)
(***************************************************************************)
EXTENDS Integers

Abs(a) == IF a < 0 THEN -a ELSE a
Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0

(* Equality that TLC can evaluate between integers of any two sizes. *)
Eq(a, b) == a <= b /\ a >= b

(* Ceiling division by a positive integer. *)
CDiv(a, b) == -((-a) \div b)

(* Scaling by a power of two, rounding down / up when k < 0. *)
ShF(a, k) == IF k >= 0 THEN a * 2^k ELSE a \div 2^(-k)
ShC(a, k) == IF k >= 0 THEN a * 2^k ELSE CDiv(a, 2^(-k))

IsEven(a) == a % 2 = 0

(* Number of bits of |a|: the least k with |a| < 2^k. *)
RECURSIVE BitLenRec(_)
BitLenRec(a) == IF a = 0 THEN 0 ELSE 1 + BitLenRec(a \div 2)
BitLen(a) == BitLenRec(Abs(a))

(* Integer square root (floor) of a natural number, by Newton's method. *)
RECURSIVE ISqrtRec(_, _)
ISqrtRec(a, x) == LET y == (x + a \div x) \div 2
                  IN  IF y >= x THEN x ELSE ISqrtRec(a, y)
ISqrt(a) == IF a = 0 THEN 0 ELSE ISqrtRec(a, 2^((BitLenRec(a) + 1) \div 2))

(* Ceiling of the square root. *)
ISqrtC(a) == LET s == ISqrt(a) IN IF s * s >= a THEN s ELSE s + 1

(* floor(a + 1/2 , ties to even) of the dyadic number a / 2^k, k >= 0 *)
RoundHalfEven(a, k) ==
    IF k <= 0 THEN a * 2^(-k)
    ELSE LET q == a \div 2^k
             d == 2 * (a - q * 2^k) - 2^k     \* sign: position within the gap
         IN  IF d > 0 \/ (d >= 0 /\ ~IsEven(q)) THEN q + 1 ELSE q
=============================================================================
