------------------------------- MODULE Eager -------------------------------
(* Tup(f) is f.  The Java class makes TLC evaluate the sequence f once       *)
(* instead of at every application.                                          *)
Tup(f) == f
=============================================================================
