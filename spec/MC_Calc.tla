------------------------------ MODULE MC_Calc --------------------------------
(***************************************************************************)
(* The calculator's machine itself, over a toy library and a few tokens:   *)
(* what a user can rely on whatever is typed.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC
CONSTANTS MaxTokens, MaxLines

Toy(op, f, n, a, b) == CASE op \in {"addition"} -> (a + b) % 4
                         [] op \in {"power", "root", "integer_power"} -> (a + 2 * b) % 4
                         [] op = "precision" -> 2
                         [] OTHER -> a % 4
C == INSTANCE Calculator WITH Lib <- Toy, AsFound <- FALSE
Tokens == {<<"reg", 1, 0>>, <<"reg", 2, 0>>, <<"int", 2, 10>>, <<"dec", 5, -1>>, <<"op", "addition", 0>>, <<"op", "root", 0>>,
           <<"op", "inversion", 0>>, <<"type", 1, 8>>, <<"bad", 0, 0>>, <<"help", 0, 0>>}
VARIABLES m, before, lines
vars == <<m, before, lines>>
RegsSame(x, y) == \A r \in 1..C!Letters : C!SameNum(x.regs[r], y.regs[r])
Init == m = C!Start /\ before = C!Start /\ lines = 0
Token == /\ lines < MaxLines /\ m.seen < MaxTokens /\ m.shown # <<"done">>
         /\ \E t \in Tokens : m' = C!Read(m, t)
         /\ UNCHANGED <<before, lines>>
End == /\ lines < MaxLines
       /\ LET e == C!Finish(m)
          IN  /\ m' = C!NewLine(e)
              /\ before' = m'
              /\ Assert(\/ e.shown[1] # "result" /\ RegsSame(e, before) /\ e.next = before.next
                        \/ /\ e.shown[1] = "result" /\ e.said = ""
                           /\ e.next = 1 + (before.next % C!Letters)
                           /\ \A r \in 1..C!Letters : r # before.next => C!SameNum(e.regs[r], before.regs[r])
                           /\ C!SameNum(e.regs[before.next], e.shown[3]), "a line writes exactly the register it prints")
              /\ Assert(e.said # "" => e.shown[1] = "none", "a failed line prints nothing")
       /\ lines' = lines + 1
Spec == Init /\ [][Token \/ End]_vars

(* inside a line nothing but the stack and the type changes *)
LineIsPrivate == RegsSame(m, before) /\ m.next = before.next
TypeChangesEndTheLine == m.type # before.type => ~m.live
StackBounded == Len(m.stack) <= m.seen
==============================================================================
