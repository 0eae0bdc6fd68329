------------------------------- MODULE GenLaws -------------------------------
(***************************************************************************)
(* Histories to record for the laws of Laws.tla.  A plan entry is          *)
(* <<law, kind, fam, n, op, other, ..., first, extra, count>>; the kind    *)
(* says how the history is built from operands: those of the rows first,   *)
(* first + 1, ... of ExtraFile, then count pseudo-random ones.             *)
(***************************************************************************)
EXTENDS Samples
CONSTANTS PlanFile, OutFile, ExtraFile
Plan == ReadRows(PlanFile)
Extra == ReadRows(ExtraFile)
ExtraOf(p) == p[Len(p) - 1]
CountOf(p) == p[Len(p)]
(* the i-th operands: two histories for each extra row *)
IsExtra(p, i) == i < 2 * ExtraOf(p)
RowOf(p, i) == LET r == Extra[p[Len(p) - 2] + i \div 2] IN <<r[4], r[5]>>
(* a single operand: all of a small format; else the core, then by turns a  *)
(* number the program mentions, a special and a pseudo-random one           *)
Single(p, f, n, s, j) ==
    LET h == HintTakums(f, n)
        r == Rnd(s + 15, j)
    IN  IF j < 2^n /\ 2^n <= CountOf(p) THEN Signed(n, j)
        ELSE IF j < Len(Core(n)) THEN Core(n)[j + 1]
        ELSE CASE j % 3 = 0 /\ Len(h) > 0 -> Pick(h, r) [] j % 3 = 1 -> Pick(Special(f, n), r) [] OTHER -> Rand(f, n, s, j)
Operands(p, op, f, n, s, i) ==
    LET j == i - 2 * ExtraOf(p)
    IN  IF IsExtra(p, i) THEN RowOf(p, i)
        ELSE IF op \in BinaryFns /\ n = 8 /\ j < 65536 /\ CountOf(p) >= 65536 THEN <<Signed(8, j), Signed(8, j \div 256)>>
        ELSE IF Arity1(op) /\ op \notin FromOps \cup ConvOps THEN <<Single(p, f, n, s, j), 0>> ELSE ArgsOf(op, f, n, s, j)
Operand(p, f, n, s, i) == IF IsExtra(p, i) THEN RowOf(p, i)[1] ELSE Single(p, f, n, s, i - 2 * ExtraOf(p))
FloatOperand(p, w, f, n, s, i) == IF IsExtra(p, i) THEN RowOf(p, i)[1] ELSE FloatArg(w, f, n, s, i - 2 * ExtraOf(p))

Neg(n, t) == IF IsNaR(n, t) THEN t ELSE -t
C2(op, f, n, a, b) == <<op, f, n, a, b>>
Name(f, n) == (CASE f = 0 /\ n = 8 -> "from_takum8" [] f = 0 /\ n = 16 -> "from_takum16"
                 [] f = 0 /\ n = 32 -> "from_takum32" [] f = 0 /\ n = 64 -> "from_takum64"
                 [] f = 1 /\ n = 8 -> "from_takum_linear8" [] f = 1 /\ n = 16 -> "from_takum_linear16"
                 [] f = 1 /\ n = 32 -> "from_takum_linear32" [] f = 1 /\ n = 64 -> "from_takum_linear64")
FromTo(op) == CASE op = "to_float32" -> "from_float32" [] op = "to_float64" -> "from_float64"
                [] op = "to_extended_float" -> "from_extended_float"

(* two operands a < b, often adjacent *)
TwoOf(p, f, n, x, s, i) ==
    LET u == Rnd(s + 12, i)
        d == IF u % 4 < (IF IsExtra(p, i) THEN 3 ELSE 2) THEN 1 ELSE 2^((u \div 4) % (n - 2))
        a == Max(IF (IF IsExtra(p, i) THEN ~IsEven(i) ELSE u % 3 = 0) /\ ~IsNaR(n, x) THEN x - d ELSE x, -PosMax(n))
        y == Min(a + d, PosMax(n))
    IN  IF y > a THEN <<a, y>> ELSE <<a - 1, a>>
Two(p, f, n, s, i) == TwoOf(p, f, n, Operand(p, f, n, s, i), s, i)
TwoFloat(p, w, f, n, s, i) ==
    LET b == FloatOperand(p, w, f, n, s, i)
        u == Rnd(s + 12, i)
        d == IF u % 4 < 2 THEN 1 ELSE 2^((u \div 4) % (FracBits(w) + 2))
        k0 == Min(MagKey(w, b), InfKey(w) - 2)
        k == IF IsExtra(p, i) /\ ~IsEven(i) THEN Max(0, k0 - d) ELSE k0
        l == Min(k + d, InfKey(w) - 1)
        sg == 2^(w-1)
    IN  IF Negative(w, b) THEN <<sg + PatternOf(w, l), sg + PatternOf(w, k)>>
        ELSE <<PatternOf(w, k), PatternOf(w, l)>>

(* negated first operand (or the only one), in the operand's own format *)
NegArg(op, n, a) == IF op \in FromOps THEN LET w == FloatWidth(op) IN IF Negative(w, a) THEN a - 2^(w-1) ELSE a + 2^(w-1)
                    ELSE IF op \in ConvOps THEN Neg(SrcOf[op][2], a) ELSE Neg(n, a)

History(p, s, i) ==
    LET law == p[1]  kind == p[2]  f == p[3]  n == p[4]  op == p[5]  ot == p[6]
        ab == Operands(p, op, f, n, s, i)
        x == ab[1]  y == ab[2]
        t == Operand(p, f, n, s, i)
    IN  CASE kind = "neg1"  -> <<law>> \o C2(op, f, n, x, y) \o C2(op, f, n, NegArg(op, n, x), y)
          [] kind = "neg2"  -> <<law>> \o C2(op, f, n, x, y) \o C2(op, f, n, x, Neg(n, y))
          [] kind = "negb"  -> <<law>> \o C2(op, f, n, x, y) \o C2(op, f, n, Neg(n, x), Neg(n, y))
          [] kind = "swap"  -> <<law>> \o C2(op, f, n, x, y) \o C2(op, f, n, y, x)
          [] kind = "other" -> <<law>> \o C2(op, f, n, x, y) \o C2(ot, f, n, x, y)
          [] kind = "addneg" -> <<law>> \o C2(op, f, n, x, y) \o C2(ot, f, n, x, Neg(n, y))
          [] kind = "divinv" -> <<law>> \o C2("inversion", f, n, y, 0) \o C2("multiplication", f, n, x, "@1") \o C2("division", f, n, x, y)
          [] kind = "float" -> <<law>> \o C2(op, f, n, t, 0) \o C2(FromTo(op), f, n, "@1", 0)
          [] kind = "wide"  -> <<law>> \o C2(Name(f, n), p[7], p[8], t, 0) \o C2(Name(p[7], p[8]), f, n, "@1", 0)
          [] kind = "twice" -> <<law>> \o C2(op, f, n, t, 0) \o C2(op, f, n, "@1", 0)
          [] kind = "unit"  -> <<law>> \o C2(op, f, n, t, One(n))
          [] kind = "unit1" -> <<law>> \o C2(op, f, n, t, 1)
          [] kind = "unit0" -> <<law>> \o C2(op, f, n, t, 0)
          [] kind = "minus1" -> <<law>> \o C2(op, f, n, t, -One(n))
          [] kind = "onebase" -> <<law>> \o C2(op, f, n, One(n), IF op \in IntFns THEN y ELSE t)
          [] kind = "zerofst" -> <<law>> \o C2(op, f, n, 0, t)
          [] kind = "hypot0" -> <<law>> \o C2(op, f, n, t, 0) \o C2("absolute", f, n, t, 0)
          [] kind = "hypot0b" -> <<law>> \o C2(op, f, n, 0, t) \o C2("absolute", f, n, t, 0)
          [] kind = "double" -> <<law>> \o C2(op, f, n, t, One(n) + 2^(n - 5)) \o C2("addition", f, n, t, t)
          [] kind = "self"  -> <<law>> \o C2(op, f, n, t, t)
          [] kind = "signabs" -> <<law>> \o C2("sign", f, n, t, 0) \o C2("absolute", f, n, t, 0) \o C2("multiplication", f, n, "@1", "@2")
          [] kind = "square" -> <<law>> \o C2("integer_power", f, n, t, 2) \o C2("multiplication", f, n, t, t)
          [] kind = "recip" -> <<law>> \o C2(op, f, n, t, -1) \o C2("inversion", f, n, t, 0)
          [] kind = "root2" -> <<law>> \o C2("root", f, n, t, 2) \o C2("square_root", f, n, t, 0)
          [] kind = "sqsq" -> <<law>> \o C2("absolute", f, n, t, 0) \o C2("square_root", f, n, "@1", 0) \o C2("integer_power", f, n, "@2", 2) \o C2("absolute", f, n, t, 0)
          [] kind = "two"   -> LET q == Two(p, f, n, s, i) IN <<law>> \o C2(op, f, n, q[1], 0) \o C2(op, f, n, q[2], 0)
          [] kind = "twosrc" -> LET q == Two(p, IF SrcOf[op][1] THEN 1 ELSE 0, SrcOf[op][2], s, i)
                                IN  <<law>> \o C2(op, f, n, q[1], 0) \o C2(op, f, n, q[2], 0)
          [] kind = "twofloat" -> LET q == TwoFloat(p, FloatWidth(op), f, n, s, i) IN <<law>> \o C2(op, f, n, q[1], 0) \o C2(op, f, n, q[2], 0)
          [] kind = "twosnd" -> LET q == TwoOf(p, f, n, IF IsExtra(p, i) THEN RowOf(p, i)[2] ELSE Unary1(f, n, s, i), s, i)
                                    z == IF IsExtra(p, i) THEN RowOf(p, i)[1] ELSE Unary1(f, n, s + 14, i)
                                IN  <<law>> \o C2(op, f, n, z, q[1]) \o C2(op, f, n, z, q[2])
          [] kind = "twofst" -> LET q == Two(p, f, n, s, i)
                                    z == IF IsExtra(p, i) THEN RowOf(p, i)[2] ELSE Unary1(f, n, s + 14, i)
                                IN  <<law>> \o C2(op, f, n, q[1], z) \o C2(op, f, n, q[2], z)

VARIABLES entry, calls
Stream(e) == 20 * e
Init == entry \in 1..Len(Plan) /\ calls = 0
Call == /\ calls < 2 * ExtraOf(Plan[entry]) + CountOf(Plan[entry])
        /\ WriteRow(OutFile, History(Plan[entry], Stream(entry), calls))
        /\ calls' = calls + 1
        /\ UNCHANGED entry
Spec == Init /\ [][Call]_<<entry, calls>>
=============================================================================
