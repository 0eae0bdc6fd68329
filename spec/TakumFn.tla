------------------------------- MODULE TakumFn ------------------------------
(***************************************************************************)
(* What every arithmetic and elementary function of the library has to     *)
(* return.  A function's specification is a "verdict" for its arguments:   *)
(*    <<"nar">>      the result must be NaR                                *)
(*    <<"any">>      any result but NaR (used where the reachable inputs   *)
(*                   straddle a pole within the working precision)         *)
(*    <<"free">>     any result (the same, where a reachable input may be  *)
(*                   the pole itself)                                      *)
(*    <<"rng",a,b>>  one of the takums a..b                                *)
(*    <<"alt",v,w>>  what either of the verdicts v, w allows               *)
(*    <<"int", t>>   the result must be exactly the takum t                *)
(*    <<"val", F>>   the result must be the rounding of some real in F     *)
(* F encloses f(x(1+d))(1+eps): the exact function value, of the exact     *)
(* argument perturbed at most by the working precision of the type         *)
(* (float64 for linear takums up to 32 bits, extended float otherwise).    *)
(* Rounding is Takum!RoundLog / Takum!RoundLin; nothing here depends on    *)
(* how the library computes.                                               *)
(***************************************************************************)
EXTENDS Takum, Elem

Nar == <<"nar">>
AnyReal == <<"any">>
Free == <<"free">>
Alt(v, w) == <<"alt", v, w>>
Int_(t) == <<"int", t>>
Val(F) == <<"val", F>>

----------------------------------------------------------------------------
(* Exact and perturbed argument values *)

LogL(n, t) == LET a == LogValue(n, t) IN Point(a[1], -a[2])        \* l
ExactVal(lin, n, t) ==
    IF t = 0 THEN Zero
    ELSE IF Eq(Abs(t), One(n)) THEN IInt(Sgn(t))
    ELSE IF lin THEN LET a == LinValue(n, t) IN Point(a[1], a[2])
    ELSE LET x == ExpI(IScale(LogL(n, t), -1))
         IN  IF t < 0 THEN INeg(x) ELSE x

(* Perturbation of a logarithmic argument on its way to extended float:    *)
(* (|l|+4) * 2^-64 relative, none when l = 0 (the value is +-1).           *)
LogFuzz(n, t) == LET a == LogValue(n, t)
                 IN  IF a[1] = 0 THEN -1000
                     ELSE Max(BitLen(a[1]) - a[2], 2) - 63
FuzzBy(F, k) == IF k <= -1000 THEN F ELSE IFuzz(F, k)

(* The argument as the library may see it *)
ArgVal(lin, n, t) ==
    IF lin \/ t = 0 THEN ExactVal(lin, n, t)
    ELSE FuzzBy(ExactVal(lin, n, t), LogFuzz(n, t))

(* Unit roundoff granted to a computed result / an inner intermediate *)
Eps(lin, n) == IF lin /\ n <= 32 THEN -50 ELSE -61
Work(F, lin, n) == IFuzz(F, Eps(lin, n))

----------------------------------------------------------------------------
(* Acceptance *)

(* Bounds of the roundings of the reals in F.  The logarithm of a result   *)
(* is itself a working-precision number, hence the pad.                    *)
LogPad(n) == IF n <= 32 THEN -60 ELSE -62
LogBoundP(n, F, up, p) ==  \* F a point interval [m,m]*2^e of a positive real
    LET L0 == IScale(LnPt(F[1], F[3]), 1)
        L == IPad(L0, Max(Mag(L0), 2) + p)
        v == IF up THEN L[2] ELSE L[1]
    IN  RoundPos(n, ShF(v, Max(L[3], 0)), Max(0, -L[3]))
LogBound(n, F, up) == LogBoundP(n, F, up, LogPad(n))
(* A 64-bit linear result passes through c+m as an extended float.         *)
LinSlack(n, v, x) == BitLen(BitLen(v) + x) + 1 - 64
LinBoundBy(n, v, x, k, up) ==              \* v * 2^x * (1 +- 2^-k)
    RoundLin(n, v * 2^k + (IF up THEN Abs(v) ELSE -Abs(v)), x - k)
LinBound(n, v, x, up) ==
    IF n < 64 THEN RoundLin(n, v, x) ELSE LinBoundBy(n, v, x, -LinSlack(n, v, x), up)
BoundLo(lin, n, F) ==
    IF F[1] = 0 THEN 0
    ELSE IF lin THEN LinBound(n, F[1], F[3], FALSE)
    ELSE IF F[1] > 0 THEN LogBound(n, Lo(F), FALSE)
    ELSE -LogBound(n, INeg(Lo(F)), TRUE)
BoundHi(lin, n, F) ==
    IF F[2] = 0 THEN 0
    ELSE IF lin THEN LinBound(n, F[2], F[3], TRUE)
    ELSE IF F[2] > 0 THEN LogBound(n, Hi(F), TRUE)
    ELSE -LogBound(n, INeg(Hi(F)), FALSE)

(* Bounds after granting the final relative error *)
Range(lin, n, F) ==
    IF IsZero(F) THEN <<0, 0>>
    ELSE LET G == Norm(Work(F, lin, n)) IN <<BoundLo(lin, n, G), BoundHi(lin, n, G)>>

RECURSIVE Conforms(_, _, _, _)
Conforms(lin, n, v, r) ==
    CASE v[1] = "nar" -> IsNaR(n, r)
      [] v[1] = "any" -> ~IsNaR(n, r)
      [] v[1] = "free" -> TRUE
      [] v[1] = "int" -> Eq(r, v[2])
      [] v[1] = "rng" -> v[2] <= r /\ r <= v[3]
      [] v[1] = "alt" -> Conforms(lin, n, v[2], r) \/ Conforms(lin, n, v[3], r)
      [] v[1] = "val" -> LET b == Range(lin, n, v[2]) IN b[1] <= r /\ r <= b[2]

(* What Conforms allows, for messages *)
Allowed(lin, n, v) ==
    CASE v[1] = "int" -> <<v[2], v[2]>>
      [] v[1] = "rng" -> <<v[2], v[3]>>
      [] v[1] = "val" -> Range(lin, n, v[2])
      [] OTHER -> <<>>

----------------------------------------------------------------------------
(* Helpers *)
Recip(F) == IF HasZero(F) THEN AnyReal ELSE Val(IInv(F))
Quot(F, G) == IF HasZero(G) THEN AnyReal ELSE Val(IDiv(F, G))
NarIf(c, v) == IF c THEN Nar ELSE v
OverPi(F) == IDiv(F, PiI)

(* Is the takum exactly a multiple of one half?  Twice its value if so. *)
TwiceExact(lin, n, t) ==          \* <<TRUE, 2x>> or <<FALSE>>
    IF t = 0 THEN <<TRUE, 0>>
    ELSE IF lin THEN LET a == LinValue(n, t)
                         e == a[2] + 1
                     IN  IF e >= 0 THEN <<TRUE, (a[1] % 4) * (IF e = 0 THEN 1 ELSE IF e = 1 THEN 2 ELSE 0)>>
                         ELSE IF a[1] % 2^(-e) = 0 THEN <<TRUE, (a[1] \div 2^(-e)) % 4>>
                         ELSE <<FALSE>>
    ELSE IF Eq(Abs(t), One(n)) THEN <<TRUE, 2>>
    ELSE <<FALSE>>

(* the argument, additionally perturbed by the rounding of pi * x or 1 / x *)
ArgW(lin, n, t) == LET x == ArgVal(lin, n, t) IN IF t = 0 THEN x ELSE Norm(IFuzz(x, Eps(lin, n) - 1))

PiTimes(fn, lin, n, t) ==
    LET h == TwiceExact(lin, n, t)
    IN  IF h[1]
        THEN LET q == h[2] % 4                   \* x = q/2 (mod 2)
                 s == <<0, 1, 0, -1>>[q + 1]
                 c == <<1, 0, -1, 0>>[q + 1]
                 u(v) == Int_(v * One(n))
             IN  CASE fn = "sin_pi_times" -> u(s)
                   [] fn = "cos_pi_times" -> u(c)
                   [] fn = "tan_pi_times" -> IF c = 0 THEN Nar ELSE u(0)
                   [] fn = "sec_pi_times" -> IF c = 0 THEN Nar ELSE u(c)
                   [] fn = "csc_pi_times" -> IF s = 0 THEN Nar ELSE u(s)
                   [] fn = "cot_pi_times" -> IF s = 0 THEN Nar ELSE u(0)
        ELSE LET sc == SinCosPiI(ArgW(lin, n, t))
                 \* an exponential may be rounded to a pole, a dyadic number is not
                 q(F, G) == IF HasZero(G) /\ ~lin THEN Free ELSE Quot(F, G)
             IN  CASE fn = "sin_pi_times" -> Val(sc[1])
                   [] fn = "cos_pi_times" -> Val(sc[2])
                   [] fn = "tan_pi_times" -> q(sc[1], sc[2])
                   [] fn = "sec_pi_times" -> q(OneI, sc[2])
                   [] fn = "csc_pi_times" -> q(OneI, sc[1])
                   [] fn = "cot_pi_times" -> q(sc[2], sc[1])

Cut1(F) == ICutLo(ICutHi(F, 1), -1)

(* artanh, arcoth helper: y in (-1, 1), possibly perturbed up to +-1 *)
Atanh_(F) == Val(AtanhI(F))

(***************************************************************************)
(* One-argument functions                                                  *)
(***************************************************************************)
PiFns == {"sin_pi_times", "cos_pi_times", "tan_pi_times",
          "sec_pi_times", "csc_pi_times", "cot_pi_times"}
TrigFns == {"sin", "cos", "tan", "sec", "csc", "cot"}
ArcFns == {"arcsin", "arcsin_over_pi", "arccos", "arccos_over_pi",
           "arctan", "arctan_over_pi", "arccot", "arccot_over_pi",
           "arccsc", "arccsc_over_pi", "arcsec", "arcsec_over_pi"}
HypFns == {"sinh", "cosh", "tanh", "csch", "sech", "coth"}
ArFns == {"arsinh", "arcosh", "artanh", "arcsch", "arsech", "arcoth"}
ExpFns == {"exp", "2_raised", "10_raised",
           "exp_minus_1", "2_raised_minus_1", "10_raised_minus_1"}
LogFns == {"ln", "lb", "lg", "ln_1_plus", "lb_1_plus", "lg_1_plus"}
BitFns == {"sign", "absolute", "inversion", "square_root"}
UnaryFns == PiFns \cup TrigFns \cup ArcFns \cup HypFns \cup ArFns
            \cup ExpFns \cup LogFns \cup BitFns

Trig(fn, lin, n, t) ==
    LET sc == SinCosI(ArgVal(lin, n, t))
    IN  CASE fn = "sin" -> Val(sc[1])
          [] fn = "cos" -> Val(sc[2])
          [] fn = "tan" -> Quot(sc[1], sc[2])
          [] fn = "sec" -> Recip(sc[2])
          [] fn = "csc" -> NarIf(t = 0, Recip(sc[1]))
          [] fn = "cot" -> NarIf(t = 0, Quot(sc[2], sc[1]))

(* arccot takes values in [0, pi] *)
Arccot(x) == IF IsZero(x) THEN HalfPiI
             ELSE IF Pos(x) THEN AtanI(IInv(x))
             ELSE IAdd(PiI, AtanI(IInv(x)))

Arc(fn, lin, n, t) ==
    LET one == One(n)
        out == t > one \/ t < -one
        ins == t < one /\ t > -one
        x == ArgVal(lin, n, t)
        y == IF Eq(Abs(t), one) THEN x
             ELSE Cut1(Norm(IFuzz(IInv(x), Eps(lin, n) - 1)))       \* 1/x
    IN  CASE fn = "arcsin"         -> NarIf(out, Val(AsinI(Cut1(x))))
          [] fn = "arcsin_over_pi" -> NarIf(out, Val(OverPi(AsinI(Cut1(x)))))
          [] fn = "arccos"         -> NarIf(out, Val(AcosI(Cut1(x))))
          [] fn = "arccos_over_pi" -> NarIf(out, Val(OverPi(AcosI(Cut1(x)))))
          [] fn = "arctan"         -> Val(AtanI(x))
          [] fn = "arctan_over_pi" -> Val(OverPi(AtanI(x)))
          [] fn = "arccot"         -> Val(Arccot(x))
          [] fn = "arccot_over_pi" -> Val(OverPi(Arccot(x)))
          [] fn = "arccsc"         -> NarIf(ins, Val(AsinI(y)))
          [] fn = "arccsc_over_pi" -> NarIf(ins, Val(OverPi(AsinI(y))))
          [] fn = "arcsec"         -> NarIf(ins, Val(AcosI(y)))
          [] fn = "arcsec_over_pi" -> NarIf(ins, Val(OverPi(AcosI(y))))

Hyp(fn, lin, n, t) ==
    LET x == ArgVal(lin, n, t)
    IN  CASE fn = "sinh" -> Val(SinhI(x))
          [] fn = "cosh" -> Val(CoshI(x))
          [] fn = "tanh" -> Val(TanhI(x))
          [] fn = "csch" -> NarIf(t = 0, Recip(SinhI(x)))
          [] fn = "sech" -> Val(IInv(CoshI(x)))
          [] fn = "coth" -> NarIf(t = 0, Recip(TanhI(x)))

(* 1/x as the working precision may round it *)
RecipW(lin, n, x, k) == IF Eq(x[3], 0) /\ Eq(x[1], x[2]) /\ Eq(Abs(x[1]), 1) THEN x ELSE Norm(IFuzz(IInv(x), k))

Ar(fn, lin, n, t, k) ==              \* k: precision of the inner reciprocal
    LET one == One(n)
        x == ArgVal(lin, n, t)
    IN  CASE fn = "arsinh" -> Val(AsinhI(x))
          [] fn = "arcosh" -> NarIf(t < one, Val(AcoshI(ICutLo(x, 1))))
          [] fn = "artanh" -> NarIf(t >= one \/ t <= -one, Atanh_(x))
          [] fn = "arcsch" -> NarIf(t = 0, Val(AsinhI(RecipW(lin, n, x, k))))
          [] fn = "arsech" -> NarIf(t <= 0 \/ t > one, Val(AcoshI(ICutLo(RecipW(lin, n, x, k), 1))))
          [] fn = "arcoth" -> NarIf(t >= -one /\ t <= one, Atanh_(Cut1(RecipW(lin, n, x, k))))

Expo(fn, lin, n, t) ==
    LET x == ArgVal(lin, n, t)
        two == Work(ExpI(IMul(x, Ln2I)), FALSE, 64)
        ten == Work(ExpI(IMul(x, Ln10I)), FALSE, 64)
    IN  CASE fn = "exp"               -> Val(ExpI(x))
          [] fn = "2_raised"          -> Val(ExpI(IMul(x, Ln2I)))
          [] fn = "10_raised"         -> Val(ExpI(IMul(x, Ln10I)))
          [] fn = "exp_minus_1"       -> Val(ExpM1I(x))
          (* documented in the code: a difference of two extended floats *)
          [] fn = "2_raised_minus_1"  -> IF t = 0 THEN Val(Zero) ELSE Val(ISub(two, OneI))
          [] fn = "10_raised_minus_1" -> IF t = 0 THEN Val(Zero) ELSE Val(ISub(ten, OneI))

Logs(fn, lin, n, t) ==
    LET x == ArgVal(lin, n, t)
        one == One(n)
    IN  CASE fn = "ln" -> NarIf(t <= 0, Val(LnI(x)))
          [] fn = "lb" -> NarIf(t <= 0, Val(IMul(LnI(x), LbEI)))
          [] fn = "lg" -> NarIf(t <= 0, Val(IMul(LnI(x), LgEI)))
          [] fn = "ln_1_plus" -> NarIf(t <= -one, Val(Ln1pI(x)))
          [] fn = "lb_1_plus" -> NarIf(t <= -one, Val(IMul(Ln1pI(x), LbEI)))
          [] fn = "lg_1_plus" -> NarIf(t <= -one, Val(IMul(Ln1pI(x), LgEI)))

(* Rounding of a dyadic logarithmic value num / (den * 2^k), computed in   *)
(* the log domain: exactly where the quotient is representable in the      *)
(* working float, otherwise within 2^-k relative.                          *)
LogQuot(n, neg, a, k, d, rel) ==         \* l = a / 2^k / d, d # 0
    LET num == IF d < 0 THEN -a ELSE a
        den == Abs(d)
        s == 200
        q == (Abs(num) * 2^s) \div den
        m == Max(q, 2^(k + s))                         \* |l|, but at least 1
        g == IF rel >= 0 THEN 0 ELSE m \div 2^(-rel) + 1
        lo == q - g
        hi == q + g + (IF Eq(q * den, Abs(num) * 2^s) THEN 0 ELSE 1)
        b1 == IF num < 0 THEN RoundPos(n, -hi, k + s) ELSE RoundPos(n, lo, k + s)
        b2 == IF num < 0 THEN RoundPos(n, -lo, k + s) ELSE RoundPos(n, hi, k + s)
    IN  IF neg THEN <<-b2, -b1>> ELSE <<b1, b2>>
Between(b) == <<"rng", b[1], b[2]>>

(* relative error granted to the log-domain arithmetic of each width *)
LogRel(n) == IF n <= 16 THEN -22 ELSE IF n = 32 THEN -51 ELSE -61

Bit1(fn, lin, n, t) ==
    CASE fn = "sign"     -> Int_(Sgn(t) * One(n))
      [] fn = "absolute" -> Int_(Abs(t))
      [] fn = "inversion" ->
           IF t = 0 THEN Nar
           ELSE IF lin THEN Val(IInv(ExactVal(lin, n, t)))
           ELSE Int_(Sgn(t) * (2^(n-1) - Abs(t)))              \* exactly -l
      [] fn = "square_root" ->
           IF t < 0 THEN Nar
           ELSE IF t = 0 THEN Int_(0)
           ELSE IF lin THEN Val(ISqrtI(ExactVal(lin, n, t)))
           ELSE LET a == LogValue(n, t) IN Int_(RoundLog(n, FALSE, a[1], a[2] + 1))

ReduceK(lin, n) == Eps(lin, n) - 1

Unary(fn, lin, n, t) ==
    IF IsNaR(n, t) THEN Nar
    ELSE IF fn \in BitFns THEN Bit1(fn, lin, n, t)
    ELSE IF fn \in PiFns THEN PiTimes(fn, lin, n, t)
    ELSE IF fn \in TrigFns THEN Trig(fn, lin, n, t)
    ELSE IF fn \in ArcFns THEN Arc(fn, lin, n, t)
    ELSE IF fn \in HypFns THEN Hyp(fn, lin, n, t)
    ELSE IF fn \in ArFns THEN Ar(fn, lin, n, t, ReduceK(lin, n))
    ELSE IF fn \in ExpFns THEN Expo(fn, lin, n, t)
    ELSE Logs(fn, lin, n, t)

(***************************************************************************)
(* Two-argument functions                                                  *)
(***************************************************************************)
BinaryFns == {"addition", "subtraction", "multiplication", "division",
              "power", "hypotenuse", "arctan2", "arctan2_over_pi"}
IntFns == {"integer_power", "root"}

(* log-domain a + sb * b, sb = +-1, exact; the 64-bit format may round the *)
(* sum to extended float first                                             *)
LogSum(n, neg, a, b, sb) ==
    LET p == LogValue(n, a)
        q == LogValue(n, b)
        k == Max(p[2], q[2])
        s == p[1] * 2^(k - p[2]) + sb * q[1] * 2^(k - q[2])
    IN  IF n < 64 THEN Int_(RoundLog(n, neg, s, k))
        ELSE Between(LogQuot(n, neg, s, k, 1, -62))

Atan2(y, x, ty, tx) ==              \* ty, tx: the takums, for exact signs
    IF ty = 0 THEN (IF tx >= 0 THEN Zero ELSE PiI)
    ELSE IF tx = 0 THEN (IF ty > 0 THEN HalfPiI ELSE INeg(HalfPiI))
    ELSE LET a == AtanI(IDiv(y, x))
         IN  IF tx > 0 THEN a
             ELSE IF ty > 0 THEN IAdd(a, PiI) ELSE ISub(a, PiI)

Hypot(x, y) == ISqrtI(IAdd(IMul(x, x), IMul(y, y)))

(* Is the takum an exact integer, and is it odd? *)
IntParity(lin, n, t) ==            \* "no", "even", "odd"
    LET h == TwiceExact(lin, n, t)
    IN  IF ~h[1] \/ ~IsEven(h[2]) THEN "no"
        ELSE IF h[2] % 4 = 0 THEN "even" ELSE "odd"

PowPos(x, y) == ExpI(IMul(y, LnI(x)))         \* x > 0

AbsI(F) == IF F[2] <= 0 THEN INeg(F) ELSE F

Power(lin, n, a, b) ==
    LET x == ArgVal(lin, n, a)
        y == ArgVal(lin, n, b)
        par == IntParity(lin, n, b)
    IN  IF a = 0 THEN (IF b <= 0 THEN Nar ELSE Int_(0))
        ELSE IF b = 0 \/ Eq(a, One(n)) THEN Int_(One(n))
        ELSE IF a > 0 THEN Val(PowPos(x, y))
        ELSE IF par = "no" THEN
             (* the exponential y may be rounded to an integer *)
             IF ~lin /\ ShF(y[2], y[3]) >= ShC(y[1], y[3])
             THEN LET p == PowPos(AbsI(x), y)
                  IN  Alt(Nar, Alt(Val(p), Val(INeg(p))))
             ELSE Nar
        ELSE IF par = "odd" THEN Val(INeg(PowPos(AbsI(x), y)))
        ELSE Val(PowPos(AbsI(x), y))

Binary(fn, lin, n, a, b) ==
    IF IsNaR(n, a) \/ IsNaR(n, b) THEN Nar
    ELSE CASE
         fn = "addition"    -> IF Eq(a, -b) THEN Int_(0) ELSE Val(IAdd(ArgVal(lin, n, a), ArgVal(lin, n, b)))
      [] fn = "subtraction" -> IF Eq(a, b) THEN Int_(0) ELSE Val(ISub(ArgVal(lin, n, a), ArgVal(lin, n, b)))
      [] fn = "multiplication" ->
           IF a = 0 \/ b = 0 THEN Int_(0)
           ELSE IF lin THEN Val(IMul(ExactVal(lin, n, a), ExactVal(lin, n, b)))
           ELSE LogSum(n, (a < 0) # (b < 0), a, b, 1)
      [] fn = "division" ->
           IF b = 0 THEN Nar
           ELSE IF a = 0 THEN Int_(0)
           ELSE IF lin THEN Val(IDiv(ExactVal(lin, n, a), ExactVal(lin, n, b)))
           ELSE LogSum(n, (a < 0) # (b < 0), a, b, -1)
      [] fn = "power"      -> Power(lin, n, a, b)
      [] fn = "hypotenuse" -> Val(Hypot(ArgVal(lin, n, a), ArgVal(lin, n, b)))
      [] fn = "arctan2"    -> Val(Atan2(ArgVal(lin, n, a), ArgVal(lin, n, b), a, b))
      [] fn = "arctan2_over_pi" -> Val(OverPi(Atan2(ArgVal(lin, n, a), ArgVal(lin, n, b), a, b)))

(* a to the integer power k; a's k-th root *)
IntPower(lin, n, a, k) ==
    LET neg == a < 0 /\ ~IsEven(k)
    IN  IF a = 0 THEN (IF k <= 0 THEN Nar ELSE Int_(0))
        ELSE IF k = 0 THEN Int_(One(n))
        ELSE IF ~lin /\ n < 64
        THEN LET l == LogValue(n, a)
             IN  Int_(RoundLog(n, neg, l[1] * k, l[2]))
        ELSE LET x == AbsI(ArgVal(lin, n, a))
                 y == Norm(IFuzz(PowPos(x, IInt(k)), -61))
             IN  Val(IF neg THEN INeg(y) ELSE y)

Root(lin, n, a, k) ==
    LET neg == a < 0
    IN  IF k = 0 \/ (a < 0 /\ IsEven(k)) \/ (a = 0 /\ k < 0) THEN Nar
        ELSE IF a = 0 THEN Int_(0)
        ELSE IF ~lin
        THEN LET l == LogValue(n, a)
             IN  Between(LogQuot(n, neg, l[1], l[2], k, IF Abs(k) = 1 THEN 0 ELSE LogRel(n)))
        ELSE LET x == AbsI(ExactVal(lin, n, a))
                 y == ExpI(IMul(IFuzz(LnI(x), -62), IInv(IInt(Abs(k)))))
                 z == IF k < 0 THEN IInv(y) ELSE y
             IN  Val(IF neg THEN INeg(z) ELSE z)

IntArg(fn, lin, n, a, k) ==
    IF IsNaR(n, a) THEN Nar
    ELSE IF fn = "integer_power" THEN IntPower(lin, n, a, k)
    ELSE Root(lin, n, a, k)
=============================================================================
