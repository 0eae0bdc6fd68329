-------------------------------- MODULE Rows ---------------------------------
(***************************************************************************)
(* One observed call:  <<op, family, n, a, b, r, status>>                  *)
(*   family 0 = logarithmic, 1 = linear; status 0 = returned,              *)
(*   1 = crashed, 2 = did not return.                                      *)
(* Verdict(row) is what the specification says about it.                   *)
(***************************************************************************)
EXTENDS TakumConv, Constants

Lin(row) == row[2] = 1

Verdict(row) ==
    LET op == row[1]  lin == Lin(row)  n == row[3]  a == row[4]  b == row[5]
    IN  CASE op \in UnaryFns  -> Unary(op, lin, n, a)
          [] op \in BinaryFns -> Binary(op, lin, n, a, b)
          [] op \in IntFns    -> IntArg(op, lin, n, a, b)
          [] op \in ConvOps   -> ConvVerdict(op, lin, n, a)
          [] op \in ToOps     -> ToVerdict(FloatWidth(op), lin, n, a)
          [] op \in FromOps   -> FromVerdict(FloatWidth(op), lin, n, a)
          [] op = "precision" -> Int_(Precision(n, a))
          [] op \in ConstOps -> ConstVerdict(op, lin, n)

Matches(row, v) ==
    LET r == row[6]
    IN  IF row[7] # 0 THEN FALSE
        ELSE CASE v[1] = "nan" -> IsNaN(v[2], r)
               [] v[1] = "flt" -> ~IsNaN(v[2], r) /\ v[3] <= Key(v[2], r) /\ Key(v[2], r) <= v[4]
               [] OTHER -> Conforms(Lin(row), row[3], v, r)

Explains(row) == Matches(row, Verdict(row))

(* for messages *)
Expected(row) ==
    LET v == Verdict(row)
    IN  IF v[1] \in {"nan", "flt"} THEN v
        ELSE <<v[1]>> \o Allowed(Lin(row), row[3], v)
=============================================================================
