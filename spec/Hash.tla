-------------------------------- MODULE Hash --------------------------------
(* Recorded calls of the hash functions.  The state remembers the hash of     *)
(* every value seen in the session; values that compare equal must agree with *)
(* it.  A session of kind "sens" varies a single component of one value: at   *)
(* its end the hash must have taken more than one value.                      *)
EXTENDS Binary32, Lanes, FiniteSets, Json, IOUtils, TLC

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, pos, bank, memo, verdict
vars == <<sid, pos, bank, memo, verdict>>
Events == Sessions[sid].e
Event == Events[pos + 1]
FloatArgs == {"f", "v2", "v3", "v4", "q", "m2", "m3", "m4"}
(* the representative of the values equal to a *)
Repr(isFloat, a) == IF isFloat THEN Map1(LAMBDA x : IF x = NZero THEN PZero ELSE x, a) ELSE a
SelfEqual(isFloat, a) == isFloat => \A i \in 1..Len(a) : ~FNaN(a[i])
IsFloat == Sessions[sid].t \in FloatArgs
Init == /\ sid \in 1..Len(Sessions) /\ pos = 0 /\ memo = {} /\ verdict = "ok"
        /\ bank = [k \in 1..Sessions[sid].n |-> <<>>]
Load == /\ Event.c = "load"
        /\ bank' = [bank EXCEPT ![Event.d[1]] = Event.r[1]]
        /\ UNCHANGED <<memo, verdict>>
Call == /\ Event.c = "h"
        /\ LET v == bank[Event.a[1]] k == <<Event.o, Repr(IsFloat, v)>> h == Event.r[1]
               agree == Event.x = <<>> /\ (SelfEqual(IsFloat, v) => \A m \in memo : m[1] = k => m[2] = h)
               new == IF SelfEqual(IsFloat, v) THEN memo \cup {<<k, h>>} ELSE memo
               last == pos + 1 = Len(Events)
               varied == Sessions[sid].kind = "sens" => Cardinality({m[2] : m \in new}) > 1
           IN /\ verdict' = IF agree /\ (last => varied) THEN "ok" ELSE "bad"
              /\ memo' = new
        /\ bank' = [bank EXCEPT ![Event.d[1]] = Event.r[1]]
Step == verdict = "ok" /\ pos < Len(Events) /\ (Load \/ Call) /\ pos' = pos + 1 /\ UNCHANGED sid
Spec == Init /\ [][Step]_vars
Conformance == verdict = "ok"
=============================================================================
