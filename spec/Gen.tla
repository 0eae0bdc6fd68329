--------------------------------- MODULE Gen ---------------------------------
(***************************************************************************)
(* Stimulus generation: a behaviour makes one call after the other of one  *)
(* entry of the plan; each step writes the call it made.                   *)
(* A plan entry is <<op, family, n, count>>.                               *)
(***************************************************************************)
EXTENDS Samples
CONSTANTS PlanFile, OutFile
Plan == ReadRows(PlanFile)

VARIABLES entry, calls   \* (names not bound anywhere else: TLC caches constants only then)
Stream(e) == 20 * e
Init == entry \in 1..Len(Plan) /\ calls = 0
Call == LET p == Plan[entry]
        IN  /\ calls < CallCount(p[1], p[3], p[4])
            /\ LET a == CallArgs(p[1], p[2], p[3], p[4], Stream(entry), calls)
               IN  WriteRow(OutFile, <<p[1], p[2], p[3], a[1], a[2]>>)
            /\ calls' = calls + 1
            /\ UNCHANGED entry
Spec == Init /\ [][Call]_<<entry, calls>>
=============================================================================
