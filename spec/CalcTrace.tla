------------------------------ MODULE CalcTrace ------------------------------
(***************************************************************************)
(* Trace validation of recorded calculator sessions, one token per step.   *)
(* A row is one line: <<number of tokens, kind, x, y, ..., output...>>;    *)
(* Index[s] = <<first row, number of rows, messages on standard error...>>.*)
(***************************************************************************)
EXTENDS Integers, Sequences, RowIO, Library, TLC
CONSTANTS TraceFile, IndexFile, Exe
Run(op, f, n, a, b) == LibCall(Exe, op, f, n, a, b)
C == INSTANCE Calculator WITH Lib <- Run, AsFound <- FALSE
D == INSTANCE Calculator WITH Lib <- Run, AsFound <- TRUE       \* the program's recorded defects included
Trace == ReadRows(TraceFile)
Index == ReadRows(IndexFile)

(* mach is what the calculator should be, alt what it is with its recorded *)
(* defects; the one that a line's output refutes continues as the other.   *)
VARIABLES sess, line, tok, mach, alt, said, good
vars == <<sess, line, tok, mach, alt, said, good>>
RowOf == Trace[Index[sess][1] + line]
Ntok == RowOf[1]
Init == sess \in 1..Len(Index) /\ line = 0 /\ tok = 0 /\ mach = C!Start /\ alt = C!Start /\ said = 0 /\ good = TRUE
Token == /\ line < Index[sess][2] /\ tok < Ntok
         /\ LET t == <<RowOf[3 * tok + 2], RowOf[3 * tok + 3], RowOf[3 * tok + 4]>>
            IN  mach' = C!Read(mach, t) /\ alt' = D!Read(alt, t)
         /\ tok' = tok + 1
         /\ UNCHANGED <<sess, line, said, good>>
Said(k) == IF k > Len(Index[sess]) - 2 THEN "" ELSE Index[sess][k + 2]
After(m) == IF m.said = "" THEN said ELSE said + 1
Matches(m) == /\ C!Shows(m, SubSeq(RowOf, 3 * Ntok + 2, Len(RowOf)))
              /\ m.said # "" => Said(said + 1) = m.said
              /\ line + 1 = Index[sess][2] => After(m) = Len(Index[sess]) - 2
EndLine == /\ line < Index[sess][2] /\ tok = Ntok
           /\ LET m == C!Finish(mach)
                  d == D!Finish(alt)
                  okm == Matches(m)
                  okd == Matches(d)
                  i == Index[sess][1] + line
              IN  /\ good' = (good /\ (okm \/ okd \/ ~PrintT(<<"DEVIATION", i, <<m.shown, m.said>> >>)))
                  /\ (good /\ ~okm /\ okd) => PrintT(<<"KNOWN", i, "calculator-integers">>)
                  /\ mach' = C!NewLine(IF okd /\ ~okm THEN d ELSE m)
                  /\ alt' = C!NewLine(IF okm /\ ~okd THEN m ELSE d)
                  /\ said' = IF okd /\ ~okm THEN After(d) ELSE After(m)
           /\ line' = line + 1
           /\ tok' = 0
           /\ UNCHANGED sess
Spec == Init /\ [][Token \/ EndLine]_vars
=============================================================================
