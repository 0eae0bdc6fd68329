------------------------------- MODULE GenCalc -------------------------------
(***************************************************************************)
(* Calculator sessions: mostly well-formed expressions over literals and   *)
(* registers, and every way a line can go wrong.  A row is one line:       *)
(* <<session, kind, x, y, kind, x, y, ...>>.                               *)
(***************************************************************************)
EXTENDS Samples
CONSTANTS PlanFile, OutFile
Calc == INSTANCE Calculator WITH Lib <- LAMBDA o, f, n, a, b : 0, AsFound <- FALSE
Plan == ReadRows(PlanFile)        \* <<lines, mode>> per session: 0, or 1..8 for a tour of all operators in one type

Una == <<"absolute", "arccos", "arccos_over_pi", "arccot", "arccot_over_pi", "arccsc", "arccsc_over_pi", "arcosh", "arcoth",
         "arcsch", "arcsec", "arcsec_over_pi", "arcsin", "arcsin_over_pi", "arctan", "arctan_over_pi", "arsech", "arsinh",
         "artanh", "cos", "cos_pi_times", "cosh", "cot", "cot_pi_times", "coth", "csc", "csc_pi_times", "csch", "exp",
         "exp_minus_1", "inversion", "lb", "lb_1_plus", "lg", "lg_1_plus", "ln", "ln_1_plus", "sec", "sec_pi_times", "sech",
         "sign", "sin", "sin_pi_times", "sinh", "square_root", "tan", "tan_pi_times", "tanh", "precision">>
Bin == <<"addition", "subtraction", "multiplication", "division", "power", "arctan2", "arctan2_over_pi", "hypotenuse">>
Types == <<<<0, 8>>, <<0, 16>>, <<0, 32>>, <<0, 64>>, <<1, 8>>, <<1, 16>>, <<1, 32>>, <<1, 64>>>>
Small(u) == (u % 41) - 20
IntLits == <<0, 1, -1, 2, 3, 7, 10, 16, 100, 255, 1000, 65536, 2^31, 2^53, 2^53 + 1, 2^62, 2^63 - 2, 2^63 - 1, 2^63, 2^64,
             -(2^63), -(2^63) - 1, -(2^63) + 1, -(2^70), 10^18, -10>>
Operand(u, v) ==
    CASE u % 16 \in 0..3 -> <<"reg", 1 + ((u \div 16) % (IF IsEven(v) THEN 5 ELSE 26)), 0>>
      [] u % 16 \in 4..7 -> <<"int", Small(u \div 16), 10>>
      [] u % 16 = 8 -> <<"int", Pick(IntLits, u \div 16), Pick(<<10, 16, 8>>, v)>>
      [] u % 16 \in 9..12 -> <<"dec", ((u \div 16) % 20001) - 10000, -(v % 7)>>
      [] u % 16 = 13 -> <<"dec", ((u \div 16) % 1999) - 999, (v % 61) - 30>>
      [] u % 16 = 14 -> <<"dec", Pick(<<0, 1, -1, 10, -10, 100, 5>>, u \div 16), -(v % 3)>>
      [] u % 16 = 15 -> IF (u \div 16) % 4 = 0 THEN <<"nan", 0, 0>> ELSE IF (u \div 16) % 4 = 1 THEN <<"inf", 1 - 2 * (v % 2), 0>>
                        ELSE <<"dec", u % 10^15, -(v % 40)>>
RECURSIVE Expr(_, _, _, _)
Expr(s, i, depth, rem) ==          \* tokens that take the stack from depth to 1
    LET u == Rnd(s, 64 * i + rem)
        v == Rnd(s + 1, 64 * i + rem)
        bin == <<"op", Pick(Bin, v), 0>>
    IN  IF depth = 0 THEN <<Operand(u, v)>> \o Expr(s, i, 1, rem - 1)
        ELSE IF rem <= 0 THEN (IF depth = 1 THEN <<>> ELSE <<bin>> \o Expr(s, i, depth - 1, rem - 1))
        ELSE CASE u % 8 \in {0, 1} /\ depth >= 2 -> <<bin>> \o Expr(s, i, depth - 1, rem - 1)
               [] u % 8 = 2 -> <<<<"int", Small(v), 10>>, <<"op", "root", 0>>>> \o Expr(s, i, depth, rem - 2)
               [] u % 8 \in {3, 4} -> <<<<"op", Pick(Una, v), 0>>>> \o Expr(s, i, depth, rem - 1)
               [] u % 8 = 5 -> <<<<"int", Small(v) \div 4, 10>>, <<"op", "power", 0>>>> \o Expr(s, i, depth, rem - 2)
               [] OTHER -> <<Operand(u \div 8, v)>> \o Expr(s, i, depth + 1, rem - 1)
Insert(seq, k, x) == SubSeq(seq, 1, k) \o <<x>> \o SubSeq(seq, k + 1, Len(seq))
Line(s, i) ==
    LET u == Rnd(s + 2, i)
        v == Rnd(s + 3, i)
        e == Expr(s, i, 0, u % 9)
        k == v % (Len(e) + 1)
        ty == Pick(Types, v \div 64)
        typ == <<"type", ty[1], ty[2]>>
    IN  CASE (u \div 64) % 24 \in {0, 1, 2} -> <<typ>>
          [] (u \div 64) % 24 = 3 -> Insert(e, k, typ)
          [] (u \div 64) % 24 = 4 -> Insert(e, k, <<"bad", v % 12, 0>>)
          [] (u \div 64) % 24 = 5 -> Insert(e, k, <<"op", Pick(Bin, v \div 64), 0>>)
          [] (u \div 64) % 24 = 6 -> Insert(e, k, Operand(u, v))
          [] (u \div 64) % 24 = 7 -> e \o <<Operand(u \div 2048, v), <<"op", "root", 0>>>>
          [] (u \div 64) % 24 = 8 -> IF v % 4 = 0 THEN Insert(e, k, <<"help", 0, 0>>) ELSE IF v % 4 = 1 THEN <<>> ELSE <<Operand(0, v)>>
          [] OTHER -> e
(* a line longer than any buffer *)
LongLine(len) == <<<<"int", 1, 10>>>> \o Flat([j \in 1..len |-> <<<<"reg", 1 + (j % 3), 0>>, <<"op", "addition", 0>>>>])

(* every operator, three operands each *)
Variants == 4
OpsAll == Una \o Bin \o <<"root">>
TourLength == 1 + Variants * Len(OpsAll)
Tour(s, ty, i) ==
    LET o == OpsAll[((i - 1) \div Variants) + 1]
        c == (i - 1) % Variants
        u == Rnd(s, i)
        v == Rnd(s + 1, i)
        x(w, k) == CASE k = 0 -> <<"dec", 100 + (w % 899), -3>>
                     [] k = 1 -> <<"dec", 1001 + (w % 3999), -3>>
                     [] k = 2 -> <<"dec", -(100 + (w % 899)), -3>>
                     [] k = 3 -> <<"reg", 1 + (w % 26), 0>>
        y == IF o = "root" \/ (o = "power" /\ IsEven(v)) THEN <<"int", 1 + (v % 5), 10>> ELSE x(v, (v \div 64) % 3)
    IN  IF i = 0 THEN <<<<"type", Types[ty][1], Types[ty][2]>>>>
        ELSE <<x(u, c)>> \o (IF \E j \in 1..Len(Una) : Una[j] = o THEN <<>> ELSE <<y>>) \o <<<<"op", o, 0>>>>

VARIABLES entry, calls
Stream(e) == 20 * e
Init == entry \in 1..Len(Plan) /\ calls = 0
Type == /\ calls < (IF Plan[entry][2] > 0 THEN TourLength ELSE Plan[entry][1])
        /\ LET t == IF Plan[entry][2] > 0 THEN Tour(Stream(entry), Plan[entry][2], calls)
                    ELSE IF calls = Plan[entry][1] - 1 /\ entry % 16 = 1 THEN LongLine(1500 + entry) ELSE Line(Stream(entry), calls)
           IN  WriteRow(OutFile, <<entry, calls>> \o Flat(t))
        /\ calls' = calls + 1
        /\ UNCHANGED entry
Spec == Init /\ [][Type]_<<entry, calls>>
=============================================================================
