------------------------------ MODULE LawTrace -------------------------------
(* Trace validation of recorded histories against the laws; as Trace.tla.  *)
EXTENDS Laws, RowIO, TLC
CONSTANTS TraceFile, Chunks
Trace == ReadRows(TraceFile)
Len_ == Len(Trace)
First(c) == ((c - 1) * Len_) \div Chunks
Last(c) == (c * Len_) \div Chunks

VARIABLES chunk, pos, good
vars == <<chunk, pos, good>>
Init == chunk \in 1..Chunks /\ pos = First(chunk) /\ good = TRUE
Step == /\ pos < Last(chunk)
        /\ LET ok == Holds(Trace[pos + 1])
           IN  good' = (good /\ (ok \/ ~PrintT(<<"DEVIATION", pos + 1, <<Trace[pos + 1][1]>> >>)))
        /\ pos' = pos + 1
        /\ UNCHANGED chunk
Spec == Init /\ [][Step]_vars
=============================================================================
