----------------------------- MODULE MC_Verdict ------------------------------
(***************************************************************************)
(* The specification of the functions itself, checked exhaustively on the  *)
(* 8-bit formats: what it demands is consistent (some takum is always an   *)
(* acceptable result, and hardly more than one), and it has the properties *)
(* listed in properties.jsonl.  PlanFile: rows <<op, family>>.             *)
(***************************************************************************)
EXTENDS TakumConv, RowIO, TLC
CONSTANTS PlanFile, Step_
Plan == ReadRows(PlanFile)
N == 8
Widths == {8, 16, 32, 64}

VARIABLES entry, fst, snd
vars == <<entry, fst, snd>>
Op == Plan[entry][1]
Fam == Plan[entry][2]
LinF == Fam = 1
Two == Op \in BinaryFns
Last_ == IF Two THEN 127 ELSE IF Op \in IntFns THEN 12 ELSE 0
Inc == IF Two THEN Step_ ELSE 1
Init == /\ entry \in 1..Len(Plan)
        /\ fst = -129
        /\ snd = 0
Next == /\ IF fst = -129 THEN fst' \in -128..127 /\ snd' = (IF Two THEN -128 ELSE IF Op \in IntFns THEN -12 ELSE 0)
           ELSE snd + Inc <= Last_ /\ snd' = snd + Inc /\ UNCHANGED fst
        /\ UNCHANGED entry
Spec == Init /\ [][Next]_vars

V(a, b) == IF Op \in UnaryFns THEN Unary(Op, LinF, N, a)
           ELSE IF Two THEN Binary(Op, LinF, N, a, b)
           ELSE IntArg(Op, LinF, N, a, b)
RECURSIVE Loose(_), Ok(_)
Loose(w) == w[1] \in {"any", "free"} \/ (w[1] = "alt" /\ (Loose(w[2]) \/ Loose(w[3])))
(* the acceptable results *)
Ok(w) == IF w[1] = "nar" THEN {-128}
         ELSE IF w[1] = "any" THEN -127..127 ELSE IF w[1] = "free" THEN -128..127
         ELSE IF w[1] = "alt" THEN Ok(w[2]) \cup Ok(w[3])
         ELSE LET b == Allowed(LinF, N, w) IN b[1]..b[2]
NarArg == fst = -128 \/ (Two /\ snd = -128)
Mirror(s) == {IF x = -128 THEN x ELSE -x : x \in s}
Ng(x) == IF x = -128 THEN x ELSE -x

(* a large exponential argument is not known modulo 2 *)
Reduced == Fam = 0 /\ Op \in PiFns \cup TrigFns /\ Abs(fst) >= 112
(* at most one tie can be undecided within the working precision *)
Consistent(v, s) ==
    /\ s # {}
    /\ Loose(v) \/ v[1] = "alt" \/ Op \in {"2_raised_minus_1", "10_raised_minus_1"} \/ Reduced
       \/ \A x \in s : \A y \in s : Abs(x - y) <= 1
NarPropagates(s) == NarArg => s = {-128}
(* NaR is never one of several acceptable results, except at a point where *)
(* the exponential argument may be rounded to the point itself             *)
NarIsDomain(v, s) == Loose(v) \/ v[1] = "alt" \/ s = {-128} \/ -128 \notin s
(* never rounded to zero unless the function can be zero there *)
ZeroOps == {"sin", "cos", "tan", "cot", "sin_pi_times", "cos_pi_times", "tan_pi_times", "cot_pi_times",
            "arccos", "arccos_over_pi", "arcsec", "arcsec_over_pi", "ln", "lb", "lg", "addition", "subtraction",
            "arcosh", "arsech", "arctan2", "arctan2_over_pi", "arccot", "arccot_over_pi", "2_raised_minus_1", "10_raised_minus_1"}
NeverToZero(v, s) ==
    (Op \notin ZeroOps /\ fst # 0 /\ (~Two \/ snd # 0) /\ ~NarArg) => (0 \notin s \/ Loose(v))
OddFns == {"sin", "tan", "csc", "cot", "sinh", "tanh", "csch", "coth", "arsinh", "artanh", "arcsch", "arcoth",
           "arcsin", "arctan", "arccsc", "arcsin_over_pi", "arctan_over_pi", "arccsc_over_pi", "sign", "inversion",
           "sin_pi_times", "tan_pi_times", "csc_pi_times", "cot_pi_times"}
EvenFns == {"absolute", "cos", "sec", "cosh", "sech", "cos_pi_times", "sec_pi_times"}
Symmetric(s) ==
    \/ Reduced
    \/  /\ Op \in OddFns => Ok(V(Ng(fst), snd)) = Mirror(s)
        /\ Op \in EvenFns => Ok(V(Ng(fst), snd)) = s
        /\ Op \in {"addition", "multiplication", "hypotenuse"} => Ok(V(snd, fst)) = s
        /\ Op = "subtraction" => Ok(V(snd, fst)) = Mirror(s)
        /\ Op \in {"multiplication", "division"} => Ok(V(Ng(fst), snd)) = Mirror(s) /\ Ok(V(fst, Ng(snd))) = Mirror(s)
        /\ Op \in {"integer_power", "root"} /\ ~IsEven(snd) => Ok(V(Ng(fst), snd)) = Mirror(s)

Design ==
    fst >= -128 =>
    LET v == V(fst, snd)
        s == Ok(v)
    IN  /\ Assert(Consistent(v, s), <<"Consistent", Op, Fam, fst, snd, s>>)
        /\ Assert(NarPropagates(s), <<"NarPropagates", Op, Fam, fst, snd, s>>)
        /\ Assert(NarIsDomain(v, s), <<"NarIsDomain", Op, Fam, fst, snd, s>>)
        /\ Assert(NeverToZero(v, s), <<"NeverToZero", Op, Fam, fst, snd, s>>)
        /\ Assert(Symmetric(s), <<"Symmetric", Op, Fam, fst, snd, s>>)
=============================================================================
