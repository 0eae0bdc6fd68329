------------------------------- MODULE Samples -------------------------------
(***************************************************************************)
(* The calls to make.  Every argument is derived from the format's own     *)
(* structure (sign, direction, regime, characteristic, mantissa), from the *)
(* domain edges and exact points of the functions, from rounding ties, and *)
(* from a seeded pseudo-random stream.                                     *)
(***************************************************************************)
EXTENDS TakumConv, Constants, RowIO, TLC

CONSTANTS Seed, HintFile

Rnd(s, i) == Random64(Seed, s, i)
RECURSIVE Flat(_)
Flat(ss) == IF Len(ss) = 0 THEN <<>>
            ELSE IF Len(ss) = 1 THEN ss[1]
            ELSE LET h == Len(ss) \div 2 IN Flat(SubSeq(ss, 1, h)) \o Flat(SubSeq(ss, h + 1, Len(ss)))
MapS(f(_), s) == [i \in 1..Len(s) |-> f(s[i])]
Both(s) == s \o [i \in 1..Len(s) |-> -s[i]]

(* signed n-bit word of a natural number *)
Signed(n, u) == LET v == u % 2^n IN IF v >= 2^(n-1) THEN v - 2^n ELSE v
Clamp(n, t) == Max(-PosMax(n), Min(PosMax(n), t))

Widths == <<8, 16, 32, 64>>
WIdx(n) == CASE n = 8 -> 1 [] n = 16 -> 2 [] n = 32 -> 3 [] n = 64 -> 4

----------------------------------------------------------------------------
(* Specials *)
Core0(n) == LET o == One(n) IN
    <<0, NaR(n)>> \o Both(<<1, 2, 3, o, o - 1, o + 1, o - 2, o + 2, o - 3, o + 3,
                           PosMax(n), PosMax(n) - 1, PosMax(n) - 2, o \div 2, o + o \div 2>>)
CoreTab == TLCEval([i \in 1..4 |-> Core0(Widths[i])])
Core(n) == CoreTab[WIdx(n)]

(* every direction/regime with boundary characteristics and mantissas *)
Regime(n, DR) ==
    LET b == DR * 2^(n - 5)
        r == IF DR >= 8 THEN DR - 8 ELSE 7 - DR
        p == Max(0, n - 5 - r)
        h == 2^(n - 6)
    IN  <<b, b + 1, b + h, b + h - 1, b + h + 1, b + 2 * h - 1, b + 2 * h - 2,
          b + 2^p, b + 2^p - 1, b + 2^p + 1, b + 2 * h - 2^p,
          b + h + 2^p \div 2, b + 2^p \div 2, b + 2^p \div 2 + 1, b + 2^p \div 2 - 1>>
Struct0(n) == Both(SelectSeq(Flat([d \in 1..16 |-> Regime(n, d - 1)]),
                             LAMBDA t : t >= 1 /\ t <= PosMax(n)))

(* round numbers, and where trigonometric functions are delicate *)
Ints0 == <<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 25, 27, 31, 32, 33, 50,
           63, 64, 65, 81, 99, 100, 101, 125, 127, 128, 129, 200, 255, 256, 257, 500, 512, 1000, 1001,
           1023, 1024, 1025, 4095, 4096, 10000, 65535, 65536, 65537, 1000000, 2^24 - 1, 2^24, 2^24 + 1,
           2^31, 2^32, 2^53, 2^53 + 1, 2^63, 2^64, 2^100, 2^127, 2^128>>
Near(lin, n, F) == BoundLo(lin, n, F)
Numbers0(lin, n) ==
    LET num(k) == Near(lin, n, IInt(k))
        half(k) == Near(lin, n, Point(k, -1))
        inv(k) == Near(lin, n, IInv(IInt(k)))
        pi(k) == Near(lin, n, Lo(Norm(IScale(IMul(PiI, IInt(k)), -3))))
    IN  Both(Flat(<< MapS(num, Ints0), MapS(inv, Ints0),
                     [k \in 1..40 |-> half(2 * k + 1)], [k \in 1..40 |-> pi(k)],
                     [k \in 1..40 |-> pi(k) + 1] >>))
(* numbers the source text mentions: <<m, e10, e2>> is m * 10^e10 * 2^e2;  *)
(* where a program decides by comparing with them, both sides are visited  *)
Hints == ReadRows(HintFile)
HintValue(h) == LET F == IF h[2] >= 0 THEN IInt(h[1] * 10^h[2]) ELSE Norm(IDiv(IInt(h[1]), IInt(10^(-h[2]))))
                IN  IScale(F, h[3])
HintWhole(h) == h[2] >= 0 /\ h[3] >= 0
HintPoints(h) ==
    LET F == HintValue(h)
    IN  IF HintWhole(h) /\ h[1] <= 1024 THEN <<>> ELSE <<F, IInv(F)>>
        \o (IF HintWhole(h) THEN <<>> ELSE <<IAdd(OneI, F)>>)
        \o (IF ~HintWhole(h) /\ ILt(F, OneI) THEN <<ISub(OneI, F)>> ELSE <<>>)
        \o (IF Mag(F) <= 9 /\ Mag(F) > -60 THEN <<Norm(ExpI(F)), Norm(ExpI(IScale(F, -1)))>> ELSE <<>>)
HintTakums0(lin, n) ==
    LET pt(F) == LET t == Near(lin, n, F) IN <<t, t + 1>>
        of(h) == Flat(MapS(pt, HintPoints(h)))
                 \o (IF HintWhole(h) THEN LET v == Signed(n, h[1] * 10^h[2] * 2^h[3]) IN <<v - 1, v, v + 1>> ELSE <<>>)
    IN  Both(SelectSeq(Flat(MapS(of, Hints)), LAMBDA t : t >= 1 /\ t <= PosMax(n)))
HintTab == TLCEval([f \in {0, 1} |-> TLCEval([i \in 1..4 |-> HintTakums0(f = 1, Widths[i])])])
HintTakums(fam, n) == HintTab[fam][WIdx(n)]
SpecTab == TLCEval([f \in {0, 1} |-> TLCEval([i \in 1..4 |->
    LET n == Widths[i] IN Core(n) \o Struct0(n) \o Numbers0(f = 1, n) \o HintTakums0(f = 1, n)])])
Special(fam, n) == SpecTab[fam][WIdx(n)]
Pick(s, r) == s[1 + (r % Len(s))]

----------------------------------------------------------------------------
(* a round number: m b^e for a small m and b = 2, 3, 5, 10 *)
RoundNumber(fam, n, r) ==
    LET m == Pick(<<1, 1, 1, 2, 3, 5, 7, 9, 11, 15>>, r \div 4)
        b == <<2, 3, 5, 10>>[1 + (r % 4)]
        e == (r \div 64) % (IF b = 2 THEN 130 ELSE 24)
        F == IInt(m * b^e)
    IN  Near(fam = 1, n, IF IsEven(r \div 65536) THEN IInv(F) ELSE F)
(* One pseudo-random takum; c selects its kind *)
RandT(fam, n, s, c, i) ==
    LET u == Rnd(s, i)
        v == Rnd(s + 1, i)
        k == v % (n - 1)
        d == v \div 1024
        x == Signed(n, u)
    IN  CASE c = 0 -> Max(x, -PosMax(n))
          [] c = 1 -> Clamp(n, (IF IsEven(d) THEN 1 ELSE -1) * (One(n) + Signed(n, u) \div 2^k))      \* around +-1
          [] c = 2 -> Clamp(n, Signed(n, (u \div 2^k) * 2^k))                                          \* trailing zeros
          [] c = 3 -> Clamp(n, Signed(n, (u \div 2^k) * 2^k + 2^k - 1))                                \* trailing ones
          [] c = 4 -> Clamp(n, (IF IsEven(d) THEN 1 ELSE -1) * ((6 + (d % 4)) * 2^(n-5) + (u % 2^(n-5))))  \* |l| of order 1
          [] c = 5 -> Pick(Special(fam, n), u)
          [] c = 6 -> Clamp(n, Pick(Special(fam, n), u) + (d % 5) - 2)
          [] c = 7 -> Clamp(n, (IF IsEven(d) THEN 1 ELSE -1) * ((4 + (d % 8)) * 2^(n-5) + (u % 2^(n-5))))
          [] c = 8 -> Clamp(n, Pick(Special(fam, n), d) + Signed(n, u) \div 2^k)                      \* around any of them
          [] c = 9 -> Clamp(n, (IF IsEven(d) THEN 1 ELSE -1) * (RoundNumber(fam, n, u) + ((d \div 2) % 4) - 1))
Rand(fam, n, s, i) == RandT(fam, n, s, Rnd(s + 2, i) % 10, i)

Unary1(fam, n, s, i) == IF i < Len(Special(fam, n)) THEN Special(fam, n)[i + 1] ELSE Rand(fam, n, s, i)

(* Argument pairs: all core pairs first, then related and unrelated ones *)
Pair(fam, n, s, i) ==
    LET m == Len(Core(n))
        u == Rnd(s + 9, i)
        x == Rand(fam, n, s, i)
        y == Rand(fam, n, s + 4, i)
        d == ((u \div 64) % 9) - 4
        g == (IF IsEven(u \div 1024) THEN 1 ELSE -1)
        inv(t) == IF t = 0 \/ IsNaR(n, t) THEN t ELSE Sgn(t) * (2^(n-1) - Abs(t))
        far == 2^((u \div 64) % (n - 2))
    IN  IF i < m * m THEN <<Core(n)[i \div m + 1], Core(n)[(i % m) + 1]>>
        ELSE CASE u % 12 = 0 -> <<x, g * x>>
               [] u % 12 = 1 -> IF IsNaR(n, x) THEN <<x, x>> ELSE <<x, Clamp(n, g * x + d)>>
               [] u % 12 = 2 -> IF IsNaR(n, x) THEN <<x, x>> ELSE <<x, Clamp(n, g * inv(x) + d)>>
               [] u % 12 = 3 -> IF IsNaR(n, x) THEN <<x, x>> ELSE <<x, Clamp(n, g * x + d * far)>>
               [] u % 12 = 4 -> <<x, Pick(Core(n), u \div 64)>>
               [] u % 12 = 5 -> <<Pick(Core(n), u \div 64), x>>
               [] u % 12 = 6 -> <<RandT(fam, n, s, 4, i), RandT(fam, n, s + 4, 4, i)>>
               [] OTHER -> <<x, y>>

(* powers: bases of moderate size, exponents that are small, integer, half *)
PowPair(fam, n, s, i) ==
    LET u == Rnd(s + 9, i)
        q == 1 + ((u \div 64) % 40)
        g == (IF IsEven(u \div 8192) THEN 1 ELSE -1)
        e == g * (IF IsEven(u \div 16384) THEN Near(fam = 1, n, IInt(q)) ELSE Near(fam = 1, n, Point(q, -1)))
    IN  IF IsEven(u) THEN Pair(fam, n, s, i) ELSE <<RandT(fam, n, s, IF u % 4 = 1 THEN 4 ELSE 7, i), e>>

IntsK == <<0, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5, 6, -6, 7, -7, 8, -8, 9, -9, 10, -10, 11, 12, 13, 15, -15, 16, -16, 17,
           25, 27, 31, 32, 33, -33, 63, 64, -64, 65, 100, -100, 101, -101, 127, 128, -128, 129, 254, 255, -255, 256, -256, 257,
           511, 512, 1000, -1001, 32767, 32768, -32769, 65535, 65536, 65537, 2^24, 2^24 + 1, 2^31 - 1, 2^31, -(2^31), -(2^31) - 1,
           2^32 - 1, 2^32, 2^32 + 1, 2^53, 2^53 + 1, 2^62, 2^63 - 1, 2^63 - 2, -(2^63), -(2^63) + 1>>
HintInts == LET whole(h) == HintWhole(h) /\ h[1] * 10^h[2] * 2^h[3] < 2^63
                v(h) == LET k == h[1] * 10^h[2] * 2^h[3] IN <<k - 1, k, -k, k + 1>>
            IN  SelectSeq(Flat(MapS(v, SelectSeq(Hints, whole))), LAMBDA k : k < 2^63)
IntsTab == TLCEval(IntsK \o HintInts)
IntPair(fam, n, s, i) ==
    LET m == Len(Core(n))
        u == Rnd(s + 9, i)
        k == CASE u % 4 = 0 -> Pick(IntsTab, u \div 64)
               [] u % 4 = 1 -> ((u \div 64) % 41) - 20
               [] u % 4 = 2 -> ((u \div 64) % 4001) - 2000
               [] u % 4 = 3 -> Signed(64, u) \div 2^((u \div 64) % 63)
    IN  IF i < m * Len(IntsK) THEN <<Core(n)[(i % m) + 1], IntsK[i \div m + 1]>>
        ELSE <<Rand(fam, n, s, i), k>>

----------------------------------------------------------------------------
(* IEEE patterns of width w meant for a conversion to (fam, n) *)
FloatSpecial0(w) ==
    LET one == RoundKey(w, 1, 0)
        mx == InfKey(w)
        mn == 2^FracBits(w)                     \* least normal
        ks == <<0, 1, 2, mn - 1, mn, mn + 1, one, one - 1, one + 1, one - 2, one + 2, mx, mx - 1, mx - 2>>
              \o [j \in 1..60 |-> RoundKey(w, Ints0[j], 0)]
              \o SelectSeq(Flat(MapS(LAMBDA h : Flat(MapS(LAMBDA F : LET k == RoundKey(w, F[1], F[3]) IN <<k - 1, k, k + 1>>,
                                                          HintPoints(h))), Hints)), LAMBDA k : k > 0 /\ k < mx)
              \o [j \in 1..530 |-> RoundKey(w, 1, j - 265)]
              \o [j \in 1..530 |-> RoundKey(w, 3, j - 265)]
        pos == [j \in 1..Len(ks) |-> PatternOf(w, ks[j])]
        nan == PatternOf(w, mx) + 2^(FracBits(w) - 1)
    IN  pos \o [j \in 1..Len(pos) |-> pos[j] + 2^(w - 1)] \o <<nan, nan + 2^(w - 1), nan + 1>>
FWIdx(w) == CASE w = 32 -> 1 [] w = 64 -> 2 [] w = 80 -> 3
FloatSpecTab == TLCEval([i \in 1..3 |-> FloatSpecial0(<<32, 64, 80>>[i])])
FloatSpecial(w) == FloatSpecTab[FWIdx(w)]

(* the point half-way between the positive takums t and t + 1 *)
TieValue(fam, n, t) ==
    IF fam = 1 THEN LET a == LinValue(n + 1, 2 * t + 1) IN Point(a[1], a[2])
    ELSE Norm(ExpI(IScale(LogL(n + 1, 2 * t + 1), -1)))
WithSign(w, neg, k) == PatternOf(w, Max(0, Min(InfKey(w) - 1, k))) + (IF neg THEN 2^(w - 1) ELSE 0)
FloatRand(w, fam, n, s, i) ==
    LET u == Rnd(s, i)
        v == Rnd(s + 1, i)
        c == v % 6
        neg == IsEven(v \div 64)
        t == Max(1, Abs(Rand(fam, n, s + 4, i)) % PosMax(n))
        F == TieValue(fam, n, t)
        e == ((v \div 128) % 540) - 270
    IN  CASE c = 0 -> WithSign(w, neg, (u * 2^16 + (v % 2^16)) % InfKey(w))
          [] c = 1 -> WithSign(w, neg, RoundKey(w, 2^64 + u, e - 64))
          [] c \in {2, 3} -> WithSign(w, neg, RoundKey(w, F[1], F[3]) + ((v \div 128) % 5) - 2)
          [] c = 4 -> WithSign(w, neg, RoundKey(w, 2^64 + (u \div 2^((v \div 128) % 64)) * 2^((v \div 128) % 64), ((v \div 8192) % 540) - 334))
          [] c = 5 -> WithSign(w, neg, RoundKey(w, IF fam = 1 THEN LinValue(n, t)[1] ELSE ExpI(IScale(LogL(n, t), -1))[1],
                                                   IF fam = 1 THEN LinValue(n, t)[2] ELSE ExpI(IScale(LogL(n, t), -1))[3]))
FloatArg(w, fam, n, s, i) ==
    IF i < Len(FloatSpecial(w)) THEN FloatSpecial(w)[i + 1] ELSE FloatRand(w, fam, n, s, i)

(* takums of the source type near the ties of the destination type *)
ConvArg(src, fam, n, s, i) ==
    LET sf == IF src[1] THEN 1 ELSE 0
        m == src[2]
        t == Max(1, Abs(Rand(fam, n, s + 4, i)) % PosMax(n))
        c == Rnd(s + 9, i)
        g == (IF IsEven(c \div 64) THEN 1 ELSE -1)
    IN  IF i < Len(Special(sf, m)) THEN Special(sf, m)[i + 1]
        ELSE IF c % 2 = 0 THEN Rand(sf, m, s, i)
        ELSE IF sf = fam
        THEN Clamp(m, g * (IF m > n THEN t * 2^(m-n) + 2^(m-n-1) + ((c \div 128) % 3) - 1 ELSE Rand(sf, m, s, i)))
        ELSE Clamp(m, g * (Near(src[1], m, Norm(TieValue(fam, n, t))) + ((c \div 128) % 3) - 1))

----------------------------------------------------------------------------
ArgsOf(op, fam, n, s, i) ==
    IF op \in BinaryFns THEN IF op = "power" THEN PowPair(fam, n, s, i) ELSE Pair(fam, n, s, i)
    ELSE IF op \in IntFns THEN IntPair(fam, n, s, i)
    ELSE IF op \in FromOps THEN <<FloatArg(FloatWidth(op), fam, n, s, i), 0>>
    ELSE IF op \in ConvOps THEN <<ConvArg(SrcOf[op], fam, n, s, i), 0>>
    ELSE <<Unary1(fam, n, s, i), 0>>
Arity1(op) == op \notin BinaryFns \cup IntFns
(* Small argument spaces are enumerated completely. *)
SrcWidth(op, n) == IF op \in ConvOps THEN SrcOf[op][2] ELSE n
Exhaustible(op, n, count) == Arity1(op) /\ op \notin FromOps /\ 2^SrcWidth(op, n) <= count
CallArgs(op, fam, n, count, s, i) ==
    IF op \in ConstOps THEN <<0, 0>> ELSE IF Exhaustible(op, n, count) THEN <<Signed(SrcWidth(op, n), i), 0>>
    ELSE IF op \in BinaryFns /\ n = 8 /\ count >= 65536 THEN <<Signed(8, i), Signed(8, i \div 256)>>
    ELSE ArgsOf(op, fam, n, s, i)
CallCount(op, n, count) ==
    IF op \in ConstOps THEN 1 ELSE IF Exhaustible(op, n, count) THEN 2^SrcWidth(op, n)
    ELSE IF op \in BinaryFns /\ n = 8 /\ count >= 65536 THEN 65536
    ELSE IF Arity1(op) THEN count + Len(HintTakums(0, n)) ELSE count
=============================================================================
