-------------------------------- MODULE Ival --------------------------------
(***************************************************************************)
(* Rigorous real arithmetic: <<lo, hi, e>> stands for the set of reals     *)
(* between lo * 2^e and hi * 2^e.  Every operator rounds outward, keeping  *)
(* at most W significant bits.                                             *)
(***************************************************************************)
EXTENDS Ints, Sequences

W == 140

Norm(F) == LET b == BitLen(Max(Abs(F[1]), Abs(F[2])))
           IN  IF b <= W THEN F
               ELSE LET k == b - W
                    IN  <<ShF(F[1], -k), ShC(F[2], -k), F[3] + k>>

Point(v, e) == <<v, v, e>>
IInt(a) == <<a, a, 0>>
Zero == <<0, 0, 0>>
OneI == <<1, 1, 0>>

(* Sign tests *)
IsZero(F) == F[1] = 0 /\ F[2] = 0
Pos(F) == F[1] > 0
NegI(F) == F[2] < 0
HasZero(F) == F[1] <= 0 /\ F[2] >= 0

INeg(F) == <<-F[2], -F[1], F[3]>>

IAdd(F, G) ==
    IF IsZero(F) THEN G ELSE IF IsZero(G) THEN F
    ELSE LET e == Min(F[3], G[3])
             a == F[3] - e
             b == G[3] - e
         IN  Norm(<<F[1] * 2^a + G[1] * 2^b, F[2] * 2^a + G[2] * 2^b, e>>)
ISub(F, G) == IAdd(F, INeg(G))

IMul(F, G) ==
    IF F[1] >= 0 /\ G[1] >= 0
    THEN Norm(<<F[1] * G[1], F[2] * G[2], F[3] + G[3]>>)
    ELSE LET a == F[1] * G[1]  b == F[1] * G[2]
             c == F[2] * G[1]  d == F[2] * G[2]
         IN  Norm(<<Min(Min(a, b), Min(c, d)), Max(Max(a, b), Max(c, d)),
                    F[3] + G[3]>>)

IScale(F, k) == <<F[1], F[2], F[3] + k>>     \* times 2^k

(* 1 / G, for 0 not in G *)
IInv(G) ==
    LET s == BitLen(Max(Abs(G[1]), Abs(G[2]))) + W + 8
    IN  IF G[1] > 0
        THEN Norm(<<2^s \div G[2], CDiv(2^s, G[1]), -s - G[3]>>)
        ELSE Norm(<<-CDiv(2^s, -G[2]), -(2^s \div (-G[1])), -s - G[3]>>)
IDiv(F, G) == IMul(F, IInv(G))

(* Square root of a non-negative interval (negative parts are cut off) *)
ISqrtI(F) ==
    LET lo == Max(F[1], 0)
        b  == BitLen(F[2])
        j0 == Max(0, 2 * W + 8 - b)
        j  == IF (F[3] - j0) % 2 = 0 THEN j0 ELSE j0 + 1
    IN  IF F[2] = 0 THEN Zero
        ELSE Norm(<<ISqrt(lo * 2^j), ISqrtC(F[2] * 2^j), (F[3] - j) \div 2>>)

IHull(F, G) ==
    LET e == Min(F[3], G[3])
        a == F[3] - e
        b == G[3] - e
    IN  Norm(<<Min(F[1] * 2^a, G[1] * 2^b), Max(F[2] * 2^a, G[2] * 2^b), e>>)

(* Widen by +- 2^k (absolute) *)
IPad(F, k) == IAdd(F, <<-1, 1, k>>)
(* Widen relatively: every y becomes y * [1 - 2^k, 1 + 2^k], k < 0 *)
IFuzz(F, k) ==
    <<(F[1] * 2^(-k)) - Abs(F[1]), F[2] * 2^(-k) + Abs(F[2]), F[3] + k>>

Lo(F) == <<F[1], F[1], F[3]>>
Hi(F) == <<F[2], F[2], F[3]>>
Mag(F) == BitLen(Max(Abs(F[1]), Abs(F[2]))) + F[3]    \* |F| < 2^Mag

(* certainly / possibly order tests against another interval *)
ILe(F, G) == LET e == Min(F[3], G[3])
             IN  F[2] * 2^(F[3] - e) <= G[1] * 2^(G[3] - e)
ILt(F, G) == LET e == Min(F[3], G[3])
             IN  F[2] * 2^(F[3] - e) < G[1] * 2^(G[3] - e)

(* Cut F to a known range *)
ICutHi(F, a) == \* F /\ (-oo, a]
    LET e == Min(F[3], 0)
        k == F[3] - e
        b == a * 2^(-e)
    IN  <<Min(F[1] * 2^k, b), Min(F[2] * 2^k, b), e>>
ICutLo(F, a) ==
    LET e == Min(F[3], 0)
        k == F[3] - e
        b == a * 2^(-e)
    IN  <<Max(F[1] * 2^k, b), Max(F[2] * 2^k, b), e>>
=============================================================================
