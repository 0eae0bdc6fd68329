------------------------------- MODULE Session -------------------------------
(***************************************************************************)
(* A client session.  Threads make calls from a pool, in any order, any    *)
(* number of times.  The library promises to have no state of its own: a   *)
(* call returns the same result whenever, after whatever and next to       *)
(* whatever it is made, and leaves the floating-point environment alone.   *)
(* The only state of a session is therefore the client's: memo remembers   *)
(* what each call of the pool returned when it was first observed.         *)
(***************************************************************************)
EXTENDS Integers, Sequences

Unseen == 0
Fresh(Pool) == [c \in Pool |-> Unseen]

(* Observation r of call c is one the specification explains; how results  *)
(* are named (values, or positions in a trace) is up to the user.          *)
Explained(memo, c, r, Same(_, _)) == memo[c] = Unseen \/ Same(memo[c], r)
Remember(memo, c, r) == IF memo[c] = Unseen THEN [memo EXCEPT ![c] = r] ELSE memo
=============================================================================
