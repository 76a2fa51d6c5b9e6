-------------------------------- MODULE Pure --------------------------------
(* Observations of one call instance (operation and argument bits), from       *)
(* several builds, alone and among concurrent calls from several threads.  The *)
(* library has no state: the first observation fixes the result for good.      *)
EXTENDS Integers, Sequences, Json, IOUtils, TLC

Instances == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, pos, known, result, verdict
vars == <<sid, pos, known, result, verdict>>
Seen == Instances[sid].e
Init == sid \in 1..Len(Instances) /\ pos = 0 /\ known = FALSE /\ result = <<>> /\ verdict = "ok"
Observe ==
  /\ verdict = "ok" /\ pos < Len(Seen)
  /\ LET o == Seen[pos + 1]                 \* one distinct result, and whether any argument changed
     IN /\ result' = IF known THEN result ELSE o.r
        /\ known' = TRUE
        /\ verdict' = IF o.c = 0 /\ (known => result = o.r) THEN "ok" ELSE "bad"
  /\ pos' = pos + 1 /\ UNCHANGED sid
Spec == Init /\ [][Observe]_vars
Conformance == verdict = "ok"
=============================================================================
