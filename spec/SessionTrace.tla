---------------------------- MODULE SessionTrace -----------------------------
(***************************************************************************)
(* Trace validation of recorded sessions.  A row is                        *)
(*   <<call, phase, thread, op, family, n, a, b, r, status>>               *)
(* call is its number in the pool; phase 0: the only call of a fresh       *)
(* process, 1: one thread after other calls, 2: next to other threads, 3:  *)
(* under the other rounding modes a client may have chosen (its result is  *)
(* then not specified, and not recorded, but the mode is the client's), 4: *)
(* one of the first calls threads make at once in a fresh process; 5: one  *)
(* of millions of calls of all functions in one process (the trace is then *)
(* projected to single calls, and repeated observations are left out);     *)
(* status 3: the call changed the floating-point environment.              *)
(* Index[k] = <<first row, number of rows, pool size>> of session k.       *)
(***************************************************************************)
EXTENDS Session, Ints, RowIO, TLC
CONSTANTS TraceFile, IndexFile
Trace == ReadRows(TraceFile)
Index == ReadRows(IndexFile)

VARIABLES sess, pos, memo, good
vars == <<sess, pos, memo, good>>
Row(i) == Trace[i]
SameCall(x, y) == x[4] = y[4] /\ x[5] = y[5] /\ x[6] = y[6] /\ Eq(x[7], y[7]) /\ Eq(x[8], y[8])
SameResult(i, j) == SameCall(Row(i), Row(j)) /\ Eq(Row(i)[9], Row(j)[9])

Init == sess \in 1..Len(Index) /\ pos = 0 /\ memo = Fresh(1..Index[sess][3]) /\ good = TRUE
Observe == /\ pos < Index[sess][2]
           /\ LET i == Index[sess][1] + pos
                  c == Row(i)[1]
                  valued == Row(i)[2] # 3
                  ok == Row(i)[10] = 0 /\ (valued => Explained(memo, c, i, SameResult))
              IN  /\ good' = (good /\ (ok \/ ~PrintT(<<"DEVIATION", i, <<IF memo[c] = Unseen THEN 0 ELSE Row(memo[c])[9]>> >>)))
                  /\ memo' = IF valued THEN Remember(memo, c, i) ELSE memo
           /\ pos' = pos + 1
           /\ UNCHANGED sess
Spec == Init /\ [][Observe]_vars
=============================================================================
