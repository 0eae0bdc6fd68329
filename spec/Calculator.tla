----------------------------- MODULE Calculator ------------------------------
(***************************************************************************)
(* The RPN calculator (example/calculator.c) as a state machine that reads *)
(* one token after the other.  The arithmetic is the library's: Lib is an  *)
(* uninterpreted function here.                                            *)
(*                                                                         *)
(* A number is <<fam, n, t, k>>: the takum t of type (fam, n), and, where  *)
(* it is known to be integral, the integer k (else k = NoInt).             *)
(* A token is <<kind, x, y>>:                                              *)
(*   "reg" k | "op" name | "type" fam n | "help" | "int" v base            *)
(*   | "dec" m e  (m * 10^e) | "nan" | "inf" sign | "bad"                  *)
(***************************************************************************)
EXTENDS TakumConv
CONSTANTS Lib(_, _, _, _, _),
          AsFound      \* TRUE: with the two recorded defects of the program (finding "calculator-integers")

NoInt == 2^63 - 1
Integral(x) == x[4] < NoInt
SameNum(x, y) == x[1] = y[1] /\ x[2] = y[2] /\ Eq(x[3], y[3]) /\ Eq(x[4], y[4])
Letters == 26
Binary_ == {"addition", "subtraction", "multiplication", "division", "arctan2", "arctan2_over_pi", "hypotenuse"}
Unary_ == {"absolute", "arccos", "arccos_over_pi", "arccot", "arccot_over_pi", "arccsc", "arccsc_over_pi", "arcosh", "arcoth",
           "arcsch", "arcsec", "arcsec_over_pi", "arcsin", "arcsin_over_pi", "arctan", "arctan_over_pi", "arsech", "arsinh",
           "artanh", "cos", "cos_pi_times", "cosh", "cot", "cot_pi_times", "coth", "csc", "csc_pi_times", "csch", "exp",
           "exp_minus_1", "inversion", "lb", "lb_1_plus", "lg", "lg_1_plus", "ln", "ln_1_plus", "sec", "sec_pi_times", "sech",
           "sign", "sin", "sin_pi_times", "sinh", "square_root", "tan", "tan_pi_times", "tanh"}

FromName(f, n) == CASE f = 0 /\ n = 8 -> "from_takum8" [] f = 0 /\ n = 16 -> "from_takum16"
                    [] f = 0 /\ n = 32 -> "from_takum32" [] f = 0 /\ n = 64 -> "from_takum64"
                    [] f = 1 /\ n = 8 -> "from_takum_linear8" [] f = 1 /\ n = 16 -> "from_takum_linear16"
                    [] f = 1 /\ n = 32 -> "from_takum_linear32" [] f = 1 /\ n = 64 -> "from_takum_linear64"
(* a number read as a takum of another type *)
As(x, f, n) == IF x[1] = f /\ x[2] = n THEN x[3] ELSE Lib(FromName(x[1], x[2]), f, n, x[3], 0)

(* the integer a takum is, where the calculator knows it *)
IntOf(f, n, t) ==
    IF t = 0 THEN 0
    ELSE IF IsNaR(n, t) THEN NoInt
    ELSE IF f = 0 THEN (IF Eq(Abs(t), One(n)) THEN Sgn(t) ELSE NoInt)
    ELSE LET v == LinValue(n, t)
         IN  IF v[2] >= 64 THEN NoInt
             ELSE LET w == ShF(v[1], v[2])
                  IN  IF Eq(ShC(v[1], v[2]), w) /\ w >= -(2^63) /\ w < 2^63 THEN w ELSE NoInt
Num(f, n, t) == <<f, n, t, IntOf(f, n, t)>>

(* literals *)
FloatBits(neg, key) == PatternOf(80, key) + (IF neg THEN 2^79 ELSE 0)
NanBits == PatternOf(80, InfKey(80)) + 2^62
FromFloat(f, n, b, k) == <<f, n, Lib("from_extended_float", f, n, b, 0), k>>
IntLiteral(f, n, u) ==
    LET v == IF AsFound THEN Max(u, -(2^63)) ELSE u        \* as found: strtoll()'s clamping below goes unnoticed
    IN                 IF v >= 2^63 - 1 \/ v < -(2^63) THEN FromFloat(f, n, NanBits, NoInt)
                       ELSE FromFloat(f, n, FloatBits(v < 0, RoundKey(80, Abs(v), 0)), v)
DecKey(m, e) == IF e >= 0 THEN RoundKey(80, m * 10^e, 0)
                ELSE LET F == IDiv(IInt(m), IInt(10^(-e))) IN RoundKey(80, F[1], F[3])
DecLiteral(f, n, m, e) ==
    LET k == DecKey(Abs(m), e)
        one == RoundKey(80, 1, 0)
    IN  FromFloat(f, n, FloatBits(m < 0, k), IF k = 0 THEN 0 ELSE IF Eq(k, one) THEN Sgn(m) ELSE NoInt)

(* The machine: registers, next register to write, current type, stack of  *)
(* the line; live is FALSE once the rest of the line is ignored; said is   *)
(* what went to standard error.                                            *)
Start == [type |-> <<0, 64>>, regs |-> [r \in 1..Letters |-> <<0, 8, 0, 0>>], next |-> 1,
          stack |-> <<>>, live |-> TRUE, said |-> "", shown |-> <<"none">>, seen |-> 0]
Push(m, x) == [m EXCEPT !.stack = Append(@, x)]
Top(m) == m.stack[Len(m.stack)]
Second(m) == m.stack[Len(m.stack) - 1]
Drop(m, k) == SubSeq(m.stack, 1, Len(m.stack) - k)
Replace(m, k, x) == [m EXCEPT !.stack = Append(Drop(m, k), x)]
Abort(m, why) == [m EXCEPT !.live = FALSE, !.said = why]

Operator(m, o) ==
    LET f == m.type[1]  n == m.type[2]
        arg(x) == As(x, f, n)
    IN  IF o \in Unary_ THEN
             IF Len(m.stack) < 1 THEN Abort(m, "underflow")
             ELSE Replace(m, 1, Num(f, n, Lib(o, f, n, arg(Top(m)), 0)))
        ELSE IF o = "precision" THEN
             IF Len(m.stack) < 1 THEN Abort(m, "underflow")
             ELSE LET p == Lib(o, f, n, arg(Top(m)), 0)
                  IN  IF AsFound THEN Replace(m, 1, Num(f, n, FromFloat(f, n, FloatBits(FALSE, RoundKey(80, p, 0)), p)[3]))
                      ELSE Replace(m, 1, FromFloat(f, n, FloatBits(FALSE, RoundKey(80, p, 0)), p))
        ELSE IF Len(m.stack) < 2 THEN Abort(m, "underflow")
        ELSE LET a == Second(m)  b == Top(m)
             IN  IF o = "root" THEN
                      IF ~Integral(b) THEN Abort(m, "")
                      ELSE Replace(m, 2, Num(f, n, Lib("root", f, n, arg(a), b[4])))
                 ELSE IF o = "power" THEN
                      Replace(m, 2, Num(f, n, IF ~Integral(b) THEN Lib("power", f, n, arg(a), arg(b))
                                              ELSE Lib("integer_power", f, n, arg(a), b[4])))
                 ELSE Replace(m, 2, Num(f, n, Lib(o, f, n, arg(a), arg(b))))

Read(m0, t) ==
    LET m == [m0 EXCEPT !.seen = @ + 1]
        f == m.type[1]  n == m.type[2]
    IN  IF ~m.live THEN m
        ELSE CASE t[1] = "reg"  -> Push(m, m.regs[t[2]])
               [] t[1] = "int"  -> Push(m, IntLiteral(f, n, t[2]))
               [] t[1] = "dec"  -> Push(m, DecLiteral(f, n, t[2], t[3]))
               [] t[1] \in {"nan", "inf"} -> Push(m, FromFloat(f, n, NanBits, NoInt))
               [] t[1] = "bad"  -> Abort(m, "token")
               [] t[1] = "type" -> [m EXCEPT !.type = <<t[2], t[3]>>, !.live = FALSE]
               [] t[1] = "help" -> [m EXCEPT !.live = FALSE, !.shown = <<"help">>]
               [] t[1] = "op"   -> Operator(m, t[2])

(* What the end of the line prints and stores *)
Finish(m) ==
    IF ~m.live \/ m.seen = 0 THEN m
    ELSE IF Len(m.stack) # 1 THEN [m EXCEPT !.said = "size"]
    ELSE LET x == m.stack[1]
         IN  [m EXCEPT !.shown = <<"result", m.next, x>>,
                       !.regs = [@ EXCEPT ![m.next] = x],
                       !.next = 1 + (@ % Letters)]
NewLine(m) == [m EXCEPT !.stack = <<>>, !.live = TRUE, !.said = "", !.shown = <<"none">>, !.seen = 0]

(* What is on the screen for a result: the integer, NaR, or six digits     *)
(* d * 10^(x-5) of the number as an extended float                         *)
Digits(a, k, d, x) ==                     \* a * 2^k > 0 shown as d, x
    LET scaled(j) == LET p == 5 - j                        \* a * 2^k * 10^p as num / 2^s
                     IN  IF p >= 0 THEN <<a * 10^p, k, 1>> ELSE <<a, k, 10^(-p)>>
        rnd(j) == LET q == scaled(j)                       \* rounded half to even
                      num == 2 * ShF(q[1], Max(q[2], 0))
                      den == q[3] * 2^Max(0, -q[2])
                      fl == num \div (2 * den)
                      rest == num - 2 * den * fl
                  IN  IF rest > den \/ (rest >= den /\ ~IsEven(fl)) THEN fl + 1 ELSE fl
        big(j) == LET q == scaled(j) IN ShF(q[1], Max(q[2], 0)) >= 10^5 * (q[3] * 2^Max(0, -q[2]))
    IN  \/ Eq(rnd(x), d) /\ big(x)
        \/ Eq(d, 10^5) /\ Eq(rnd(x - 1), 10^6) /\ ~big(x)
ShowsNumber(x, o) ==
    IF Integral(x) THEN o[1] = "int" /\ Eq(o[3], x[4])
    ELSE LET b == Lib("to_extended_float", x[1], x[2], x[3], 0)
         IN  IF IsNaN(80, b) THEN o[1] = "nar"
             ELSE LET v == FloatValue(80, b)            \* six digits may look like an integer
                      j == IF o[1] = "int" THEN 4 ELSE 3
                  IN  /\ o[1] \in {"num", "int"} /\ Len(o) = j + 2
                      /\ Sgn(v[1]) = o[j] /\ Digits(Abs(v[1]), v[2], o[j + 1], o[j + 2])
Shows(m, o) == IF m.shown[1] = "result" THEN Len(o) >= 2 /\ o[2] = m.shown[2] /\ ShowsNumber(m.shown[3], o)
               ELSE o[1] = m.shown[1]
=============================================================================
