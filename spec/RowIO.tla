-------------------------------- MODULE RowIO --------------------------------
(***************************************************************************)
(* Reading traces, writing stimuli, and a deterministic stream of          *)
(* pseudo-random naturals below 2^64.  All three are evaluated in Java     *)
(* (/verif/tlc/java/tlc2/module/RowIO.java).                               *)
(***************************************************************************)
EXTENDS Integers, Sequences
ReadRows(path) == <<>>
WriteRow(path, row) == TRUE
Random64(seed, stream, i) == 0
=============================================================================
