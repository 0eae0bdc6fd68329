-------------------------------- MODULE Builds -------------------------------
(***************************************************************************)
(* The library as a family of builds.  A row is one call made in each of   *)
(* them: <<op, family, n, a, b, result, status, result, status, ...>>.     *)
(* The result is a function of the call, not of the build: compiler,       *)
(* optimisation, initial contents of the stack, or instrumentation, which  *)
(* turns undefined behaviour and stray accesses into status 1.             *)
(* The state remembers what the builds looked at so far agree on.          *)
(***************************************************************************)
EXTENDS Rows, RowIO, TLC
CONSTANTS TraceFile, Chunks
Trace == ReadRows(TraceFile)
Len_ == Len(Trace)
First(c) == ((c - 1) * Len_) \div Chunks
Last(c) == (c * Len_) \div Chunks

(* results are compared as values: one NaN is like another *)
Undefined(op, r) == op \in ToOps /\ IsNaN(FloatWidth(op), r)
Agrees(op, x, y) == IF Undefined(op, x) THEN Undefined(op, y) ELSE Eq(x, y)
BuildsOf(row) == (Len(row) - 5) \div 2
(* the first build that crashed or disagrees with the one before; 0: none *)
RECURSIVE Odd(_, _)
Odd(row, j) == IF j > BuildsOf(row) THEN 0
               ELSE IF row[2 * j + 5] # 0 THEN j
               ELSE IF j > 1 /\ ~Agrees(row[1], row[2 * j + 2], row[2 * j + 4]) THEN j
               ELSE Odd(row, j + 1)

VARIABLES chunk, pos, good
vars == <<chunk, pos, good>>
Init == chunk \in 1..Chunks /\ pos = First(chunk) /\ good = TRUE
Step == /\ pos < Last(chunk)
        /\ LET j == Odd(Trace[pos + 1], 1)
           IN  good' = (good /\ (j = 0 \/ ~PrintT(<<"DEVIATION", pos + 1, <<j>> >>)))
        /\ pos' = pos + 1
        /\ UNCHANGED chunk
Spec == Init /\ [][Step]_vars
=============================================================================
