------------------------------ MODULE MC_Session -----------------------------
(***************************************************************************)
(* The session's acceptance rule is right: it never rejects a library      *)
(* without state, whatever the interleaving (Library = "pure"), and it can *)
(* reject a library that keeps any (the last call under a colliding key,   *)
(* or a scratch variable shared by threads).                               *)
(***************************************************************************)
EXTENDS Session, FiniteSets
CONSTANTS Library,        \* "pure", "cache" or "race"
          Threads, Length

Pool == 1..3
KeyOf(c) == IF c = 3 THEN 2 ELSE c        \* calls 2 and 3 collide
VARIABLES fun,      \* what the library computes
          cell,     \* <<key, result>> of its one-entry cache / scratch variable
          busy,     \* call a thread is in the middle of, 0 if none
          left, seen, ok
vars == <<fun, cell, busy, left, seen, ok>>

Init == /\ fun \in [Pool -> 1..2]
        /\ cell = <<0, 0>>
        /\ busy = [t \in 1..Threads |-> 0]
        /\ left = [t \in 1..Threads |-> Length]
        /\ seen = Fresh(Pool)
        /\ ok = TRUE
Begin(t) == /\ busy[t] = 0 /\ left[t] > 0
            /\ \E c \in Pool :
                 /\ busy' = [busy EXCEPT ![t] = c]
                 /\ cell' = IF Library = "race" THEN <<0, fun[c]>>
                            ELSE IF Library = "cache" /\ cell[1] # KeyOf(c) THEN <<KeyOf(c), fun[c]>>
                            ELSE cell
            /\ left' = [left EXCEPT ![t] = @ - 1]
            /\ UNCHANGED <<fun, seen, ok>>
Return(t) == /\ busy[t] # 0
             /\ LET c == busy[t]
                    r == IF Library = "pure" THEN fun[c] ELSE cell[2]
                IN  /\ ok' = (ok /\ Explained(seen, c, r, =))
                    /\ seen' = Remember(seen, c, r)
             /\ busy' = [busy EXCEPT ![t] = 0]
             /\ UNCHANGED <<fun, cell, left>>
Next == \E t \in 1..Threads : Begin(t) \/ Return(t)
Spec == Init /\ [][Next]_vars

NeverRejects == ok
(* memo is exactly the observed part of the function *)
MemoIsFunction == Library = "pure" => \A c \in Pool : seen[c] \in {Unseen, fun[c]}
==============================================================================
