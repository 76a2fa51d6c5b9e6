-------------------------------- MODULE Trace --------------------------------
(* Recorded sessions of the real library, checked step by step against Zcm.    *)
(* The state is the bank of registers (every live value of the session); each  *)
(* event must be a step the specification allows from the bank the previous    *)
(* events left, and must change no register other than its targets.            *)
EXTENDS Zcm, Json, IOUtils, TLC

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, pos, bank, verdict
vars == <<sid, pos, bank, verdict>>
Event == Sessions[sid].e[pos + 1]
Args(ev) == Tup([k \in 1..Len(ev.a) |-> bank[ev.a[k]]])
(* the bank after the event: its targets hold the recorded results *)
RECURSIVE Put(_, _, _, _)
Put(b, d, r, k) == IF k > Len(d) THEN b ELSE Put([b EXCEPT ![d[k]] = r[k]], d, r, k + 1)
Conforms(ev) == ev.c = "load" \/ (ev.x = <<>> /\ Allowed(ev.c, ev.o, ev.p, Args(ev), ev.r))
Init == /\ sid \in 1..Len(Sessions)
        /\ pos = 0
        /\ bank = [k \in 1..Sessions[sid].n |-> <<>>]
        /\ verdict = "ok"
Step == /\ verdict = "ok" /\ pos < Len(Sessions[sid].e)
        /\ verdict' = IF Conforms(Event) THEN "ok" ELSE "bad"
        /\ bank' = Put(bank, Event.d, Event.r, 1)
        /\ pos' = pos + 1
        /\ UNCHANGED sid
Spec == Init /\ [][Step]_vars
Conformance == verdict = "ok"
=============================================================================
