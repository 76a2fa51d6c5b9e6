--------------------------- MODULE ContainerTrace ---------------------------
(* Recorded histories of the standard containers keyed by the library's types. *)
EXTENDS Binary32, Lanes, FiniteSets, Json, IOUtils, TLC

Sessions == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES sid, pos, content, verdict
vars == <<sid, pos, content, verdict>>
Events == Sessions[sid].e
Event == Events[pos + 1]
FloatKeys == {"v2", "v3", "v4", "q", "m2", "m3", "m4"}
SameKey(a, b) == IF Sessions[sid].t \in FloatKeys THEN \A i \in 1..Len(a) : FEq(a[i], b[i]) ELSE a = b
C == INSTANCE Containers WITH Same <- SameKey
LexLt(a, b) == \E i \in 1..Len(a) : a[i] < b[i] /\ \A j \in 1..(i - 1) : a[j] = b[j]
Kind == Sessions[sid].k
Mapped == Kind \in {"umap", "map"}
Sorted == Kind \in {"set", "map"}
(* the answer reports one entry: its key, and its value when there are values *)
Reports(flag, e) == Event.w = <<e[1]>> /\ Event.r = IF Mapped THEN <<flag, e[2]>> ELSE <<flag>>
Absent == Event.w = <<>> /\ Event.r = <<0>>
NotBelow(k) == {e \in content : ~LexLt(e[1], k)}
Walked == LET w == Event.w IN
  /\ Len(w) = Cardinality(content)
  /\ {w[i] : i \in 1..Len(w)} = {e[1] : e \in content}
  /\ Mapped => \A i \in 1..Len(w) : <<w[i], Event.r[i]>> \in content
  /\ Sorted => \A i \in 1..(Len(w) - 1) : LexLt(w[i], w[i + 1])
Value == IF Mapped THEN Event.v ELSE 0
After ==
  CASE Event.o = "insert" -> C!Inserted(content, Event.a, Value)
    [] Event.o = "put"    -> C!Put(content, Event.a, Value)
    [] Event.o = "erase"  -> C!Erased(content, Event.a)
    [] Event.o = "clear"  -> {}
    [] OTHER -> content
Answered ==
  CASE Event.o = "insert" -> IF C!Has(content, Event.a) THEN Reports(0, C!TheEntry(content, Event.a)) ELSE Reports(1, <<Event.a, Value>>)
    [] Event.o \in {"put", "clear", "rehash"} -> TRUE
    [] Event.o = "erase"  -> Event.r = <<B01(C!Has(content, Event.a))>>
    [] Event.o = "count"  -> Event.r = <<B01(C!Has(content, Event.a))>>
    [] Event.o = "find"   -> IF C!Has(content, Event.a) THEN Reports(1, C!TheEntry(content, Event.a)) ELSE Absent
    [] Event.o = "size"   -> Event.r = <<Cardinality(content)>>
    [] Event.o = "walk"   -> Walked
    [] Event.o = "lower"  -> IF NotBelow(Event.a) = {} THEN Absent
                             ELSE \E e \in NotBelow(Event.a) : Reports(1, e) /\ \A d \in NotBelow(Event.a) : ~LexLt(d[1], e[1])
Init == sid \in 1..Len(Sessions) /\ pos = 0 /\ content = {} /\ verdict = "ok"
Step == /\ verdict = "ok" /\ pos < Len(Events)
        /\ verdict' = IF Answered THEN "ok" ELSE "bad"
        /\ content' = After
        /\ pos' = pos + 1
        /\ UNCHANGED sid
Spec == Init /\ [][Step]_vars
Conformance == verdict = "ok"
=============================================================================
