------------------------------- MODULE Library -------------------------------
(***************************************************************************)
(* The library as a function: its graph is obtained by running the library *)
(* built from /repo (driver/server.c, tlc/java/tlc2/module/Library.java).  *)
(* Whether that graph is right is the business of TakumFn and TakumConv.   *)
(***************************************************************************)
EXTENDS Integers
LibCall(exe, op, fam, n, a, b) == 0
=============================================================================
