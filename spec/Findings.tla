------------------------------ MODULE Findings -------------------------------
(***************************************************************************)
(* Known deviations of the code from the specification, each with the      *)
(* exact inputs and the results that are tolerated there.  See DESIGN.md   *)
(* and known-findings.jsonl; everything else is a violation.               *)
(***************************************************************************)
EXTENDS Rows

(* power(NaR, 0) = power(1, NaR) = power(0, 0) = 1, inherited from powl()  *)
KF_Power(row) ==
    LET n == row[3]  a == row[4]  b == row[5]
    IN  /\ row[1] = "power"
        /\ \/ IsNaR(n, a) /\ b = 0
           \/ Eq(a, One(n)) /\ IsNaR(n, b)
           \/ a = 0 /\ b = 0
        /\ Eq(row[6], One(n))

(* f_pi_times(x) at a negative multiple of 1/2: fmodl() keeps the sign, so *)
(* the exact cases are missed and f(PI * x) is evaluated in floating point *)
KF_PiTimes(row) ==
    LET op == row[1]  lin == Lin(row)  n == row[3]  x == row[4]  r == row[6]
        v == Unary(op, lin, n, x)
        y == ArgW(lin, n, x)
        d == Work(INeg(IMul(y, IScale(OneI, IF lin /\ n <= 32 THEN -46 ELSE -57))), lin, n)  \* > |error of PI*x|
        near0 == LET b == BoundHi(lin, n, Hi(d)) IN -b <= r /\ r <= b
        lost == Lo(ISub(OneI, d))[1] <= 0                  \* |x| is so large that nothing of PI*x is left
        pole == LET b == BoundLo(lin, n, Lo(Norm(IInv(Hi(d))))) IN ~IsNaR(n, r) /\ (r >= b \/ r <= -b)
    IN  /\ op \in PiFns
        /\ ~IsNaR(n, x) /\ x < 0
        /\ TwiceExact(lin, n, x)[1]
        /\ IF v[1] = "nar" THEN pole
           ELSE IF Eq(v[2], 0) THEN near0
           ELSE /\ Abs(r) >= BoundLo(lin, n, Lo(ISub(OneI, d)))
                /\ lost \/ Sgn(r) = Sgn(v[2])
                /\ IF op \notin {"sec_pi_times", "csc_pi_times"} THEN Abs(r) <= One(n) + 1
                   ELSE lost \/ Abs(r) <= BoundHi(lin, n, Hi(Norm(IInv(Lo(ISub(OneI, d))))))

(* takum64/takum_linear64 arcsch and arcoth are evaluated in binary64      *)
KF_Ar64(row) ==
    LET op == row[1]  lin == Lin(row)  t == row[4]
        y == RecipW(lin, 64, ArgVal(lin, 64, t), -51)
        F == IF op = "arcsch" THEN AsinhI(y) ELSE AtanhI(Cut1(y))
        edge == LET z == Norm(y) IN ShF(z[2], z[3]) >= 1 \/ ShC(z[1], z[3]) <= -1
    IN  /\ op \in {"arcsch", "arcoth"}
        /\ row[3] = 64
        /\ ~IsNaR(64, t)
        /\ \/ Conforms(lin, 64, Val(IFuzz(F, -50)), row[6])
           \/ op = "arcoth" /\ edge /\ (IsNaR(64, row[6]) \/ Abs(row[6]) >= One(64))

(* Two 64-bit constants were computed in extended floats: one unit off.    *)
KF_SixPi(row) ==
    /\ row[1] \in {"const_6_PI", "const_6_PI_OVER_5"}
    /\ row[2] = 0 /\ row[3] = 64
    /\ Eq(row[6], ConstVerdict(row[1], FALSE, 64)[3] + 1)

KnownId(row) ==
    IF row[7] # 0 THEN ""
    ELSE IF row[1] \in ConstOps /\ KF_SixPi(row) THEN "six-pi-one-unit-off"
    ELSE IF KF_Power(row) THEN "power-ieee-special-cases"
    ELSE IF row[1] \in PiFns /\ KF_PiTimes(row) THEN "pi-times-negative-exact-points"
    ELSE IF row[1] \in {"arcsch", "arcoth"} /\ row[3] = 64 /\ KF_Ar64(row) THEN "ar64-binary64-evaluation"
    ELSE ""

(***************************************************************************)
(* Projections of the specification: what it says about NaR alone, and     *)
(* about saturation alone.                                                 *)
(***************************************************************************)
RECURSIVE MayNar(_, _)
MayNar(n, v) == CASE v[1] \in {"nar", "free", "nan"} -> TRUE
                  [] v[1] = "alt" -> MayNar(n, v[2]) \/ MayNar(n, v[3])
                  [] v[1] = "int" -> IsNaR(n, v[2])
                  [] OTHER -> FALSE
MustNar(n, v) == v[1] \in {"nar", "nan"} \/ (v[1] = "int" /\ IsNaR(n, v[2]))
GotNar(row) == IF row[1] \in ToOps THEN IsNaN(FloatWidth(row[1]), row[6]) ELSE IsNaR(row[3], row[6])
NarOnly(row) == /\ row[7] = 0
                /\ LET v == Verdict(row)
                   IN  IF GotNar(row) THEN MayNar(row[3], v) ELSE ~MustNar(row[3], v)

(* a result that has to be a non-zero number is one *)
SatOnly(row) ==
    /\ row[7] = 0
    /\ LET v == Verdict(row)
           b == Allowed(Lin(row), row[3], v)
       IN  (v[1] \in {"int", "rng", "val"} /\ ~MustNar(row[3], v) /\ (b[1] > 0 \/ b[2] < 0))
           => /\ ~GotNar(row) /\ row[6] # 0 /\ Sgn(row[6]) = Sgn(b[1])
              /\ (b[1] >= PosMax(row[3]) => row[6] >= PosMax(row[3]))
              /\ (b[2] <= -PosMax(row[3]) => row[6] <= -PosMax(row[3]))
              /\ (b[2] = 1 => row[6] = 1)
              /\ (b[1] = -1 => row[6] = -1)
=============================================================================
