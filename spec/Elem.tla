-------------------------------- MODULE Elem --------------------------------
(***************************************************************************)
(* Elementary functions as enclosures over Ival intervals.  The kernels    *)
(* work in fixed point with 32 or more guard bits beyond W and pad the     *)
(* result by more than the error they can accumulate, so that the true     *)
(* value is always inside.  MC_Elem cross-checks them by identities, and   *)
(* tools/oracle_check.py against an unrelated multiprecision library.      *)
(***************************************************************************)
EXTENDS Ival

----------------------------------------------------------------------------
(* Constants, to CP bits *)
CP == 1100

RECURSIVE AtanhInvRec(_, _, _, _)
AtanhInvRec(t, q2, j, acc) ==      \* sum t/(2j+1), t shrinking by q2
    IF t = 0 THEN acc ELSE AtanhInvRec(t \div q2, q2, j + 1, acc + t \div (2 * j + 1))
RECURSIVE AtanInvRec(_, _, _, _)
AtanInvRec(t, q2, j, acc) ==
    IF t = 0 THEN acc
    ELSE AtanInvRec(t \div q2, q2, j + 1,
                    IF IsEven(j) THEN acc + t \div (2 * j + 1) ELSE acc - t \div (2 * j + 1))

(* ln 2 = 2 artanh(1/3);  pi = 16 arctan(1/5) - 4 arctan(1/239) *)
Ln2Big == LET t == 2^(CP + 16) \div 3 IN (2 * AtanhInvRec(t, 9, 0, 0)) \div 2^16
PiBig == LET at(q) == LET t == 2^(CP + 16) \div q IN AtanInvRec(t, q * q, 0, 0)
         IN  (16 * at(5) - 4 * at(239)) \div 2^16
Ln10Big == LET at(q) == LET t == 2^(CP + 16) \div q IN AtanhInvRec(t, q * q, 0, 0)
           IN  (3 * Ln2Big * 2^16 + 2 * at(9)) \div 2^16     \* 10 = 8 * (1+1/9)/(1-1/9)

(* within 2^10 units of 2^-CP *)
Ln2I  == Norm(<<Ln2Big - 1024, Ln2Big + 1024, -CP>>)
PiI   == Norm(<<PiBig - 1024, PiBig + 1024, -CP>>)
Ln10I == Norm(<<Ln10Big - 1024, Ln10Big + 1024, -CP>>)
LbEI  == IInv(Ln2I)
LgEI  == IInv(Ln10I)

P2 == W + 32
Ln2P2 == Ln2Big \div 2^(CP - P2)

----------------------------------------------------------------------------
(* exp *)
RECURSIVE TaylorExp(_, _, _, _, _)
TaylorExp(x, p, k, t, acc) ==
    IF t = 0 \/ t = -1 THEN acc
    ELSE LET u == ((t * x) \div 2^p) \div k IN TaylorExp(x, p, k + 1, u, acc + u)

RECURSIVE Sq(_, _, _)
Sq(x, p, j) == IF j = 0 THEN x ELSE Sq((x * x) \div 2^p, p, j - 1)

Huge == <<1, 1, 6000>>
Tiny == <<1, 1, -6000>>

ExpPt(m, e) ==
    IF m = 0 THEN OneI
    ELSE IF BitLen(m) + e > 12 THEN (IF m > 0 THEN Huge ELSE Tiny)
    ELSE LET X == ShF(m, e + P2)
             k == X \div Ln2P2
             r == (X - k * Ln2P2) \div 2^8
             s == Sq(TaylorExp(r, P2, 1, 2^P2, 2^P2), P2, 8)
         IN  Norm(<<s - 2^16, s + 2^16, k - P2>>)

(* Some result bound for an increasing function given at points *)
Mono(f(_, _), F) ==
    IF Eq(F[1], F[2]) THEN f(F[1], F[3])
    ELSE LET A == f(F[1], F[3])
             B == f(F[2], F[3])
             e == Min(A[3], B[3])
         IN  Norm(<<A[1] * 2^(A[3] - e), B[2] * 2^(B[3] - e), e>>)

ExpI(F) == Mono(ExpPt, F)

(* exp(x) - 1, accurate relative to its size *)
ExpM1Pt(m, e) ==
    LET g == BitLen(m) + e
    IN  IF m = 0 THEN Zero
        ELSE IF g > -8 THEN ISub(ExpPt(m, e), OneI)
        ELSE LET p == P2 - g
                 X == ShF(m, e + p)
                 s == TaylorExp(X, p, 2, X, X)
             IN  Norm(<<s - 2^8, s + 2^8, -p>>)
ExpM1I(F) == Mono(ExpM1Pt, F)

----------------------------------------------------------------------------
(* ln *)
RECURSIVE SqrtIter(_, _, _)
SqrtIter(y, p, j) == IF j = 0 THEN y ELSE SqrtIter(ISqrt(y * 2^p), p, j - 1)

RECURSIVE AtanhSer(_, _, _, _, _)
AtanhSer(t, s2, p, j, acc) ==       \* sum s^(2j+1)/(2j+1)
    IF t = 0 \/ t = -1 THEN acc
    ELSE LET u == (t * s2) \div 2^p
         IN  AtanhSer(u, s2, p, j + 1, acc + u \div (2 * j + 3))

(* ln(1+u), |u| < 2^-6 *)
Ln1pSmall(m, e) ==
    IF m = 0 THEN Zero
    ELSE LET g == BitLen(m) + e
             p == P2 - g
             U == ShF(m, e + p)
             S == (U * 2^p) \div (2^(p + 1) + U)
             a == 2 * AtanhSer(S, (S * S) \div 2^p, p, 0, S)
         IN  Norm(<<a - 2^9, a + 2^9, -p>>)

LnPt(m, e) ==                        \* m > 0
    LET b == BitLen(m)
        x == b + e                   \* 2^(x-1) <= value < 2^x
        near == x \in {0, 1} /\
                LET d == Abs(m - ShF(1, -e)) IN e <= 0 /\ (d = 0 \/ BitLen(d) + e <= -6)
    IN  IF near THEN Ln1pSmall(m - 2^(-e), e)
        ELSE LET Y == ShF(m, P2 - (b - 1))
                 z == SqrtIter(Y, P2, 6)
                 S == ((z - 2^P2) * 2^P2) \div (z + 2^P2)
                 a == 128 * AtanhSer(S, (S * S) \div 2^P2, P2, 0, S)
                      + (x - 1) * Ln2P2
             IN  Norm(<<a - 2^14, a + 2^14, -P2>>)

LnI(F) == Mono(LnPt, F)              \* F positive

(* ln(1+u), u > -1 *)
Ln1pPt(m, e) ==
    IF m = 0 THEN Zero
    ELSE IF BitLen(m) + e <= -6 THEN Ln1pSmall(m, e)
    ELSE IF e >= 0 THEN LnPt(m * 2^e + 1, 0)
    ELSE IF m + 2^(-e) <= 0 THEN <<-1, -1, 6000>>   \* ln 0
    ELSE LnPt(m + 2^(-e), e)
Ln1pI(F) == Mono(Ln1pPt, F)

----------------------------------------------------------------------------
(* arctan *)
RECURSIVE AtanSer(_, _, _, _, _)
AtanSer(t, s2, p, j, acc) ==        \* alternating, s > 0
    IF t = 0 THEN acc
    ELSE LET u == (t * s2) \div 2^p
             v == u \div (2 * j + 3)
         IN  AtanSer(u, s2, p, j + 1, IF IsEven(j) THEN acc - v ELSE acc + v)
RECURSIVE AtanHalve(_, _, _)
AtanHalve(x, p, j) ==
    IF j = 0 THEN x
    ELSE AtanHalve((x * 2^p) \div (2^p + ISqrt(2^(2 * p) + x * x)), p, j - 1)

AtanFix(X, p, h) ==                  \* arctan(X/2^p) * 2^p, 0 <= X <= 2^p
    LET x == AtanHalve(X, p, h)
    IN  2^h * AtanSer(x, (x * x) \div 2^p, p, 0, x)

AtanPosPt(m, e) ==
    LET g == BitLen(m) + e           \* value < 2^g
    IN  IF g > 0                     \* possibly >= 1/2 .. : use pi/2 - atan(1/x)
        THEN LET p == P2 + 8
                 X == IF e >= 0 THEN 2^p \div (m * 2^e) ELSE (2^p * 2^(-e)) \div m
             IN  IF X <= 2^p
                 THEN LET a == PiBig \div 2^(CP + 1 - p) - AtanFix(X, p, 4)
                      IN  Norm(<<a - 2^12, a + 2^12, -p>>)
                 ELSE LET Y == ShF(m, e + p)
                          a == AtanFix(Y, p, 4)
                      IN  Norm(<<a - 2^12, a + 2^12, -p>>)
        ELSE LET p == P2 - g
                 X == ShF(m, e + p)
                 a == AtanFix(X, p, IF g < -5 THEN 0 ELSE 4)
             IN  Norm(<<a - 2^12, a + 2^12, -p>>)
AtanPt(m, e) == IF m = 0 THEN Zero
                ELSE IF m > 0 THEN AtanPosPt(m, e) ELSE INeg(AtanPosPt(-m, e))
AtanI(F) == Mono(AtanPt, F)

HalfPiI == IScale(PiI, -1)

(* arcsin, arccos of intervals within [-1, 1] *)
AsinPt(m, e) ==
    LET x == <<m, m, e>>
        c == ISqrtI(IMul(ISub(OneI, x), IAdd(OneI, x)))
    IN  IScale(AtanI(IDiv(x, IAdd(OneI, c))), 1)
AcosPt(m, e) ==
    LET x == <<m, m, e>>
        u == IAdd(OneI, x)
    IN  IF HasZero(u) THEN PiI
        ELSE IScale(AtanI(ISqrtI(IDiv(ISub(OneI, x), u))), 1)
AsinI(F) == Mono(AsinPt, F)
AcosI(F) == INeg(Mono(LAMBDA m, e : INeg(AcosPt(m, e)), F))

----------------------------------------------------------------------------
(* sin and cos *)
RECURSIVE TrigSer(_, _, _, _, _)
TrigSer(t, x2, p, k, acc) ==        \* t (1 - x2/(k(k+1)) + ...)
    IF t = 0 \/ t = -1 THEN acc
    ELSE LET u == -(((t * x2) \div 2^p) \div (k * (k + 1)))
         IN  TrigSer(u, x2, p, k + 2, acc + u)

(* <<sin, cos>> of the fixed-point number r / 2^p, |r| < 2^p, known +-4 *)
SinCosFix(r, p) ==
    LET x2 == (r * r) \div 2^p
        s == TrigSer(r, x2, p, 2, r)
        c == TrigSer(2^p, x2, p, 1, 2^p)
    IN  <<Norm(<<s - 2^8, s + 2^8, -p>>), Norm(<<c - 2^8, c + 2^8, -p>>)>>

Quadrant(q, sc) ==
    LET j == q % 4
    IN  IF j = 0 THEN sc
        ELSE IF j = 1 THEN <<sc[2], INeg(sc[1])>>
        ELSE IF j = 2 THEN <<INeg(sc[1]), INeg(sc[2])>>
        ELSE <<INeg(sc[2]), sc[1]>>

SinCosPt(m, e) ==
    IF m = 0 THEN <<Zero, OneI>>
    ELSE LET g == BitLen(m) + e
         IN  IF g < -1
             THEN LET p == P2 - g IN SinCosFix(ShF(m, e + p), p)
             ELSE LET p == P2 + 80
                      G == g + 8
                      X == ShF(m, e + p)
                      H == PiBig \div 2^(CP + 1 - p - G)
                      q == (ShF(X, G + 1) \div H + 1) \div 2
                      r == (X * 2^G - q * H) \div 2^G
                  IN  Quadrant(q, SinCosFix(r, p))

(* enclosure over an interval, by |sin'|, |cos'| <= 1 *)
SinCosI(F) ==
    IF Eq(F[1], F[2]) THEN SinCosPt(F[1], F[3])
    ELSE IF Mag(<<0, F[2] - F[1], F[3]>>) > 2 THEN <<(<<-1, 1, 0>>), (<<-1, 1, 0>>)>>
    ELSE LET w  == <<-(F[2] - F[1]), F[2] - F[1], F[3]>>
             sc == SinCosPt(F[1], F[3])
         IN  <<IAdd(sc[1], w), IAdd(sc[2], w)>>

(* sin(pi x), cos(pi x): exact reduction, exact zeros and units *)
SinCosPiPt(m, e) ==
    IF e >= 0
    THEN LET odd == e = 0 /\ ~IsEven(m)
         IN  <<Zero, IF odd THEN INeg(OneI) ELSE OneI>>
    ELSE LET q == (ShF(m, e + 2) + 1) \div 2         \* round(2x)
             d == m - ShF(q, -e - 1)                 \* x - q/2, in units of 2^e
         IN  IF e = -1 THEN Quadrant(m, <<Zero, OneI>>)
             ELSE IF d = 0 THEN Quadrant(q, <<Zero, OneI>>)
             ELSE LET g == BitLen(d) + e
                      p == P2 - g
                      r == ShF(d * (PiBig \div 2^(CP - p - 8)), e - 8)
                  IN  Quadrant(q, SinCosFix(r, p))
SinCosPiI(F) ==
    IF Eq(F[1], F[2]) THEN SinCosPiPt(F[1], F[3])
    ELSE IF Mag(<<0, F[2] - F[1], F[3]>>) > 0 THEN <<(<<-1, 1, 0>>), (<<-1, 1, 0>>)>>
    ELSE LET w  == <<-4 * (F[2] - F[1]), 4 * (F[2] - F[1]), F[3]>>
             sc == SinCosPiPt(F[1], F[3])
         IN  <<IAdd(sc[1], w), IAdd(sc[2], w)>>

----------------------------------------------------------------------------
(* Hyperbolic functions and inverses, accurate relative to their size *)
SinhI(F) == Mono(LAMBDA m, e : IScale(ISub(ExpM1Pt(m, e), ExpM1Pt(-m, e)), -1), F)
CoshPt(m, e) == IScale(IAdd(ExpPt(m, e), ExpPt(-m, e)), -1)
CoshI(F) ==                                   \* |.| first
    LET a == IF F[1] >= 0 THEN F ELSE IF F[2] <= 0 THEN INeg(F)
             ELSE <<0, Max(-F[1], F[2]), F[3]>>
    IN  Mono(CoshPt, a)
TanhI(F) == Mono(LAMBDA m, e :
                 IF BitLen(m) + e > 12 THEN (IF m > 0 THEN OneI ELSE INeg(OneI))
                 ELSE LET a == Abs(m)
                          x == ExpM1Pt(2 * a, e)
                          t == IDiv(x, IAdd(x, IInt(2)))
                      IN  IF m < 0 THEN INeg(t) ELSE t, F)

AsinhPt(m, e) ==
    LET a == <<Abs(m), Abs(m), e>>
        s == IMul(a, a)
        t == Ln1pI(IAdd(a, IDiv(s, IAdd(OneI, ISqrtI(IAdd(OneI, s))))))
    IN  IF m = 0 THEN Zero ELSE IF m < 0 THEN INeg(t) ELSE t
AsinhI(F) == Mono(AsinhPt, F)

AcoshPt(m, e) ==                              \* x >= 1
    LET x == <<m, m, e>>
        d == ISub(x, OneI)
    IN  IF d[1] <= 0 THEN Zero
        ELSE Ln1pI(IAdd(d, ISqrtI(IMul(d, IAdd(x, OneI)))))
AcoshI(F) == Mono(AcoshPt, F)

AtanhPt(m, e) ==                              \* |x| < 1
    LET x == <<Abs(m), Abs(m), e>>
        d == ISub(OneI, x)
        t == IF d[1] <= 0 THEN <<1, 1, 6000>>
             ELSE IScale(Ln1pI(IDiv(IScale(x, 1), d)), -1)
    IN  IF m = 0 THEN Zero ELSE IF m < 0 THEN INeg(t) ELSE t
AtanhI(F) == Mono(AtanhPt, F)
=============================================================================
