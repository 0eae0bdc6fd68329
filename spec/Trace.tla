-------------------------------- MODULE Trace --------------------------------
(***************************************************************************)
(* Trace validation: every recorded call must be one the specification     *)
(* explains.  The trace is cut into chunks (the initial states) checked in *)
(* parallel; one step consumes one recorded call.                          *)
(***************************************************************************)
EXTENDS Findings, RowIO, TLC
CONSTANTS TraceFile, Chunks,
          View_          \* "full", or one of the projections "nar", "sat"

Trace == ReadRows(TraceFile)
Len_ == Len(Trace)
First(c) == ((c - 1) * Len_) \div Chunks
Last(c) == (c * Len_) \div Chunks

VARIABLES chunk, pos, good
vars == <<chunk, pos, good>>

Init == chunk \in 1..Chunks /\ pos = First(chunk) /\ good = TRUE

Report(i) ==
    LET k == KnownId(Trace[i])
    IN  IF k = "" THEN PrintT(<<"DEVIATION", i, Expected(Trace[i])>>) ELSE PrintT(<<"KNOWN", i, k>>)

(* the specification explains call number pos+1 *)
Step == /\ pos < Last(chunk)
        /\ LET ok == IF View_ = "nar" THEN NarOnly(Trace[pos + 1])
                     ELSE IF View_ = "sat" THEN SatOnly(Trace[pos + 1])
                     ELSE Explains(Trace[pos + 1])
           IN  good' = (good /\ (ok \/ ~Report(pos + 1)))
        /\ pos' = pos + 1
        /\ UNCHANGED chunk

Spec == Init /\ [][Step]_vars
Conformant == good
=============================================================================
